---------------------------- MODULE MCConstruct ----------------------------
(* Exploration of Construct over the documents of the file IOEnv.LATTICE [id, cfg]:
   a model that is ready is sound, however the document was written. *)
EXTENDS Construct

VARIABLE cf
vars == <<stage, cf>>
Lat == TLCEval(JsonDeserialize(IOEnv.LATTICE))
Cfg == Lat[cf].cfg
Ok(s) == ValidWells(Lat[s].cfg) /\ MustFluid(Lat[s].cfg)
Models == TLCEval([s \in 1..Len(Lat) |-> IF Ok(s) THEN ModelOf(Lat[s].cfg, <<>>, [none |-> 0]) ELSE [n |-> 0]])

Init == cf \in 1..Len(Lat) /\ stage = "start"
Next == (Begin \/ Wells(ValidWells(Cfg)) \/ FluidMade(MustFluid(Cfg)) \/ Ready) /\ UNCHANGED cf
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

M == Models[cf]
Tol == Dec("1e-9")
Near(a, b) == SurelyLe(NAbs(a \ominus b), Tol \otimes NAbs(b))
Sound ==
  stage = "ready" =>
  /\ Ok(cf)
  /\ \A w \in 1..Len(M.wells) :
       /\ M.wells[w].cell \in 1..M.n
       /\ <<Ix(M.dims, M.wells[w].cell), Iy(M.dims, M.wells[w].cell), Iz(M.dims, M.wells[w].cell)>> = M.wells[w].pos
       /\ SurelyLe(C0, M.wells[w].wi)
       /\ (M.wells[w].ctl = "bhp" \/ M.wells[w].has_bmin) => (SurelyLt(C0, M.wells[w].wi) \/ ~SurelyLt(C0, M.kx[M.wells[w].cell]))
  /\ \A c \in 1..M.n : SurelyLt(C0, M.pv[c]) /\ Near(M.pv[c], M.vol \otimes M.phi)
  \* every pair of neighbours is connected once, by the two-point transmissibility
  /\ Len(M.links) = LET d == M.dims IN (d[1] - 1) * d[2] * d[3] + d[1] * (d[2] - 1) * d[3] + d[1] * d[2] * (d[3] - 1)
  /\ \A a, b \in 1..Len(M.links) : (M.links[a].a = M.links[b].a /\ M.links[a].b = M.links[b].b) => a = b
  /\ \A i \in 1..Len(M.links) : LET k == M.links[i] IN
       /\ k.a < k.b
       /\ LET dist == <<Ix(M.dims, k.b) - Ix(M.dims, k.a), Iy(M.dims, k.b) - Iy(M.dims, k.a), Iz(M.dims, k.b) - Iz(M.dims, k.a)>>
          IN dist \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>}
       /\ SurelyLe(C0, k.t)
\* two documents with the same pair number describe the same model in different formats
Formats == \A s \in 1..Len(Lat) :
  (stage = "ready" /\ s # cf /\ Lat[s].same # "" /\ Lat[s].same = Lat[cf].same) => Ok(s) /\ Models[s] = M
RejectedRight == stage = "rejected" => ~Ok(cf)
Emit == stage \in {"ready", "rejected"} => PrintT(ToJson([cfg |-> Lat[cf].id, stage |-> stage]))
Decided == <>(stage \in {"ready", "rejected"})
=============================================================================
