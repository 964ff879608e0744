------------------------------ MODULE MCPvtGen ------------------------------
(* Exploration of PvtGen: every history of up to IOEnv.DEPTH requests of the file IOEnv.LATTICE
   [id, given] to two files; the curves and the interpolation between the rows keep their laws. *)
EXTENDS PvtGen

VARIABLES hist
vars == <<disk, hist>>
Lat == TLCEval(JsonDeserialize(IOEnv.LATTICE))
Depth == CHOOSE n \in 1..9 : ToString(n) = IOEnv.DEPTH
Ps == TLCEval([s \in 1..Len(Lat) |-> TLCEval(ParamsOf(Lat[s].given))])
Files == {"a", "b"}

Init == disk = [f \in {} |-> 0] /\ hist = <<>>
Request(f, s) == /\ Len(hist) < Depth
                 /\ Write(f, s)              \* the number of the parameters stands for the table
                 /\ hist' = Append(hist, [file |-> f, par |-> Lat[s].id])
Next == \E f \in Files, s \in 1..Len(Lat) : Request(f, s)
Spec == Init /\ [][Next]_vars

LastFor(f) == LET q == SelectSeq(hist, LAMBDA h : h.file = f) IN q[Len(q)].par
Holds == \A f \in DOMAIN disk : Lat[disk[f]].id = LastFor(f)

\* the laws of every table of the family, and of the fluid that reads it
Tol == Dec("1e-9")
AtMost(a, b) == SurelyLe(a, b \oplus (Tol \otimes (Tol \oplus NAbs(b))))
X(p, i) == Node(p, i)
LawsOf(p) ==
  \A i \in 1..RowsOf(p) :
    LET x == X(p, i) IN
    /\ \A k \in {"Bo", "Bw", "Bg", "mu_o_cP", "mu_w_cP", "mu_g_cP"} : SurelyLt(C0, Curve(p, k, x))
    /\ AtMost(Rs_(p, x), RsMax(p)) /\ (SurelyLe(p.pb, x) => AtMost(RsMax(p), Rs_(p, x)))
    /\ AtMost(C0, Rs_(p, x)) /\ AtMost(C0, Rv_(p, x)) /\ AtMost(Rv_(p, x), Dec("0.02"))
    /\ i < RowsOf(p) =>
         LET y == X(p, i + 1) IN
         /\ SurelyLt(x, y)
         /\ \A k \in {"Rs_m3m3", "Rv_m3m3", "mu_w_cP", "mu_g_cP"} : AtMost(Curve(p, k, x), Curve(p, k, y))
         /\ \A k \in {"Bw", "Bg", "Bo"} : AtMost(Curve(p, k, y), Curve(p, k, x))
         \* the oil thins while gas dissolves and thickens above the bubble point
         /\ Below(p, y) => AtMost(MuO_(p, y), MuO_(p, x))
         /\ SurelyLe(p.pb, x) => AtMost(MuO_(p, x), MuO_(p, y))
         \* the total compressibility a simulator derives from the table is not negative
         /\ \A k \in {"Bw", "Bg", "Bo"} : LET mid == (x \oplus y) \oslash Dec("2")
                v == InterpAt(<<x, y>>, <<Curve(p, k, x), Curve(p, k, y)>>, mid)
            IN AtMost(Curve(p, k, y), v) /\ AtMost(v, Curve(p, k, x))
Laws == hist = <<>> => \A s \in 1..Len(Lat) : LawsOf(Ps[s])
\* continuity at the bubble point
Joins == hist = <<>> => \A s \in 1..Len(Lat) :
  LET p == Ps[s]  e == p.pb \oplus Dec("1e-7") IN
  \A k \in {"Bo", "Rs_m3m3", "mu_o_cP"} : SurelyLe(NAbs(Curve(p, k, e) \ominus Curve(p, k, p.pb)), Dec("1e-6"))
Emit == (hist # <<>>) => PrintT(ToJson([hist |-> hist]))
=============================================================================
