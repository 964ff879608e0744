------------------------------ MODULE MCExport ------------------------------
(* Exploration of Export: every history of changes of the fields and exports to two names,
   up to IOEnv.DEPTH; the numbering of VTK is a bijection of the cells. *)
EXTENDS Export

VARIABLE hist
vars == <<fields, files, hist>>
Depth == CHOOSE n \in 1..9 : ToString(n) = IOEnv.DEPTH
Init == fields = 0 /\ files = [f \in {} |-> 0] /\ hist = <<>>
Go(a) == Len(hist) < Depth /\ hist' = Append(hist, a)
Next == \/ Change(fields + 1) /\ Go("change")
        \/ \E f \in {"a", "b"} : SaveAs(f) /\ Go(f)
Spec == Init /\ [][Next]_vars

\* what a file shows: the number of changes before its last save
Before(q) == Cardinality({j \in 1..(q - 1) : hist[j] = "change"})
Shown == \A f \in DOMAIN files :
  LET qs == {q \in 1..Len(hist) : hist[q] = f} IN
  /\ qs # {}
  /\ files[f] = Before(CHOOSE q \in qs : \A p \in qs : p <= q)
Others == [][\A f \in DOMAIN files : (\E g \in {"a", "b"} : hist'[Len(hist')] = g) /\ hist'[Len(hist')] # f => files'[f] = files[f]]_vars
Quiet == [][hist'[Len(hist')] # "change" => fields' = fields]_vars
Shapes == {<<1, 1, 1>>, <<2, 3, 1>>, <<2, 1, 3>>, <<3, 2, 2>>, <<1, 4, 2>>}
Numbering == hist = <<>> => \A d \in Shapes :
  /\ {ShownAt(d, q) : q \in 1..Count(d)} = 1..Count(d)
  /\ \A q \in 1..Count(d) : VtkIndex(d, VtkX(d, q), VtkY(d, q), VtkZ(d, q)) = q
Emit == Len(hist) = Depth => PrintT(ToJson([hist |-> hist]))
=============================================================================
