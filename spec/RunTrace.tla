------------------------------ MODULE RunTrace ------------------------------
(* Conformance of recorded runs with RunLoop, and of what they write with the fields.
   scenario: [id, par, dims, init, ev]; fields: [P, sw, sg, so, mass] of the last step.
   Events: step [dt, ok, st]; pic [step (0: final), day, z, panels: [img, rows, cols, lo, hi]];
   txt [r]; npz [r]; gif [frames, ms]; end [pictures, parts, other]; raise [what]. *)
EXTENDS RunLoop, Conf
VARIABLE st
vars == <<sc, l, run, st>>

Par == Data[sc].par
Dims == Data[sc].dims
N == Dims[1] * Dims[2] * Dims[3]
Init == ConfInit /\ run = Start /\ st = Data[sc].init

Close(a, b, tol) == FLe(FAbs(FSub(a, b)), tol)
Least(s) == CHOOSE x \in {s[c] : c \in 1..Len(s)} : \A c \in 1..Len(s) : FLe(x, s[c])
Most(s) == CHOOSE x \in {s[c] : c \in 1..Len(s)} : \A c \in 1..Len(s) : FLe(s[c], x)
Mean(s) == FDiv(FSum(s), FInt(Len(s)))
Scaled(s, x) == TLCEval([c \in 1..Len(s) |-> FMul(s[c], x)])

-----------------------------------------------------------------------------
(* C14: the schedule *)

Step ==
  /\ IsEvent("step")
  /\ Want("C14") => Report(If(CanStep(Par), Fail("step after the run was over or before a due picture", run.i, run.phase, ""))
       \cup If(Close(Ev.dt, FMul(Par.dt, FDec("86400")), FMul(FDec("1e-9"), Ev.dt)),
               Fail("length of a step (s)", run.i, FStr(FMul(Par.dt, FDec("86400"))), FStr(Ev.dt))))
  /\ run' = IF Ev.ok THEN [run EXCEPT !.i = @ + 1] ELSE [run EXCEPT !.phase = "stopped"]
  /\ st' = Ev.st

-----------------------------------------------------------------------------
(* C15: the content *)

Layer(k) == [q \in 1..(Dims[1] * Dims[2]) |-> st.sw[(q - 1) * Dims[3] + k + 1]]
Std(s) == LET m == Mean(s) IN FSqrt(Mean([q \in 1..Len(s) |-> FMul(FSub(s[q], m), FSub(s[q], m))]))
\* the layer shown is one where water varies most
LayerOk(z) == z \in 0..(Dims[3] - 1) /\ LET stds == [k \in 1..Dims[3] |-> Std(Layer(k - 1))]
              IN FLe(FSub(Most(stds), FDec("1e-5")), stds[z + 1])
HasGas == \E c \in 1..N : FLt(FDec("1e-6"), st.sg[c])
Pixel(field, scale, z, j, i) == Rnd(Raw(field[CellOf(Dims, i, j, z)]) \oslash scale)
PanelClauses(what, p, field, scale, z) ==
  IF p.rows # Dims[2] \/ p.cols # Dims[1]
  THEN {Fail(what \o ": shape of the picture (Y by X)", 0, ToString(<<Dims[2], Dims[1]>>), ToString(<<p.rows, p.cols>>))}
  ELSE LET bad == {q \in 1..Len(p.img) : ~Agrees(Pixel(field, scale, z, (q - 1) \div Dims[1], (q - 1) % Dims[1]), p.img[q])}
       IN {Fail(what \o ": value shown at X, Y", q, Str(Pixel(field, scale, z, (q - 1) \div Dims[1], (q - 1) % Dims[1])), FStr(p.img[q])) : q \in bad}
          \cup If(FLe(FSub(p.lo, FDec("1e-5")), Least(p.img)) /\ FLe(Most(p.img), FAdd(p.hi, FDec("1e-5"))),
                  Fail(what \o ": colour scale covers the values", 0, FStr(Least(p.img)) \o " to " \o FStr(Most(p.img)), FStr(p.lo) \o " to " \o FStr(p.hi)))
PicClauses ==
  LET n == Len(Ev.panels) IN
  If(n = (IF HasGas THEN 3 ELSE 2), Fail("panels of the picture", Ev.step, ToString(IF HasGas THEN 3 ELSE 2), ToString(n)))
  \cup (IF n < 2 \/ ~(Ev.z \in 0..(Dims[3] - 1)) THEN {Fail("layer named by the picture", Ev.step, "", ToString(Ev.z))}
        ELSE If(LayerOk(Ev.z), Fail("layer shown is where water varies most", Ev.step, "", ToString(Ev.z)))
          \cup PanelClauses("pressure", Ev.panels[1], st.P, MPa, Ev.z)
          \cup PanelClauses("water", Ev.panels[2], st.sw, C1, Ev.z)
          \cup (IF n > 2 THEN PanelClauses("gas", Ev.panels[3], st.sg, C1, Ev.z) ELSE {}))
  \cup LET t == IF Ev.step = 0 THEN Par.total ELSE FMul(FInt(Ev.step), Par.dt)
       IN If(IF Ev.step = 0 THEN Close(Ev.day, t, FMul(FDec("1e-6"), t))
             ELSE FLe(Ev.day, FAdd(t, FDec("1e-6"))) /\ FLt(FSub(t, Ev.day), FDec("1.000001")),
             Fail("day named by the picture", Ev.step, FStr(t), FStr(Ev.day)))
Pic ==
  /\ IsEvent("pic")
  /\ Want("C15") => Report(PicClauses)
  /\ Want("C14") => Report(
       IF Ev.step = 0 THEN If(CanWrite(Par, "final"), Fail("final picture", run.i, "", "before the end, or twice"))
       ELSE If(CanPicture(Par) /\ Ev.step = run.i, Fail("intermediate picture", run.i, IF CanPicture(Par) THEN ToString(run.i) ELSE "none", ToString(Ev.step))))
  /\ run' = IF Ev.step = 0 THEN [run EXCEPT !.out = @ \cup {"final"}] ELSE [run EXCEPT !.saved = Append(@, Ev.step)]
  /\ UNCHANGED st

\* a number printed with so many decimals
Shown(r, k, x, tol) ==
  IF ~Has(r, k) THEN {Fail("summary names " \o k, 0, FStr(x), "missing")}
  ELSE If(Close(r[k], x, tol), Fail("summary value of " \o k, 0, FStr(x), FStr(r[k])))
Stat(r, name, s, dec) ==
  LET tol == FMul(FDec("1e-6"), Most([c \in 1..Len(s) |-> FAbs(s[c])])) IN
  Shown(r, name \o " min", Least(s), FAdd(dec, tol))
  \cup Shown(r, name \o " max", Most(s), FAdd(dec, tol))
  \cup Shown(r, name \o " mean", Mean(s), FAdd(dec, tol))
Mass(r, name, in, out) ==
  LET rel(x) == FMul(FDec("1e-6"), FAbs(x)) IN
  Shown(r, name \o " in", in, rel(in)) \cup Shown(r, name \o " out", out, rel(out))
  \cup Shown(r, name \o " net", FSub(in, out), FAdd(rel(FSub(in, out)), FMul(FDec("1e-12"), FAdd(FAbs(in), FAbs(out)))))
Listed(what, got, field, dec) ==
  IF Len(got) # N THEN {Fail("full array of " \o what, 0, ToString(N), ToString(Len(got)))}
  ELSE Each("full array of " \o what, 1..N, LAMBDA c : Close(got[c], field[c], FAdd(dec, FMul(FDec("1e-6"), FAbs(field[c])))),
            LAMBDA c : FStr(field[c]), LAMBDA c : FStr(got[c]))
TxtClauses ==
  LET r == Ev.r
      cent == FDec("0.005")  sat == FDec("0.00005")
      mpa == Scaled(st.P, FDec("1e-6"))
      m == st.mass
      net == FSum(<<FSub(m.win, m.wout), FSub(m.oin, m.oout), FSub(m.gin, m.gout)>>)
      most == FSum(<<FAbs(m.win), FAbs(m.wout), FAbs(m.oin), FAbs(m.oout), FAbs(m.gin), FAbs(m.gout)>>)
  IN Stat(r, "Pressure MPa", mpa, cent) \cup Stat(r, "Sw", st.sw, sat) \cup Stat(r, "Sg", st.sg, sat) \cup Stat(r, "So", st.so, sat)
     \cup Mass(r, "water", m.win, m.wout) \cup Mass(r, "oil", m.oin, m.oout) \cup Mass(r, "gas", m.gin, m.gout)
     \cup Shown(r, "total net", net, FAdd(FMul(FDec("1e-6"), FAbs(net)), FMul(FDec("1e-12"), most)))
     \cup If(Ev.full = Par.full, Fail("full arrays in the summary", 0, ToString(Par.full), ToString(Ev.full)))
     \cup (IF Ev.full /\ Par.full
           THEN Listed("pressure", Ev.arrays[1], mpa, cent) \cup Listed("water", Ev.arrays[2], st.sw, sat)
                \cup Listed("gas", Ev.arrays[3], st.sg, sat) \cup Listed("oil", Ev.arrays[4], st.so, sat)
           ELSE {})
NpzClauses ==
  LET r == Ev.r  same == [pressure |-> st.P, sw |-> st.sw, sg |-> st.sg, so |-> st.so]
  IN {Fail("array " \o k \o " of the npz file", 0, "the final field", IF Has(r, k) THEN "different" ELSE "missing") :
        k \in {k \in DOMAIN same : ~Has(r, k) \/ r[k] # same[k]}}
     \cup If(Ev.shape = Dims, Fail("shape of the npz arrays", 0, ToString(Dims), ToString(Ev.shape)))
Part(k, p, clauses) ==
  /\ IsEvent(k)
  /\ Want(p) => Report(clauses)
  /\ Want("C14") => Report(If(CanWrite(Par, k), Fail("report part " \o k, run.i, "", "not due")))
  /\ run' = [run EXCEPT !.out = @ \cup {k}]
  /\ UNCHANGED st
Txt == Part("txt", "C15", TxtClauses)
Npz == Part("npz", "C15", NpzClauses)

-----------------------------------------------------------------------------
(* C29: the animation *)

FrameClauses(want, got) == If(want = got, Fail("frames of the animation", 0, ToString(want), ToString(got)))
Pace(fps, ms) == If(Close(ms, FDiv(FDec("1000"), FInt(fps)), FDec("10.001")), Fail("frame time (ms)", 0, FStr(FDiv(FDec("1000"), FInt(fps))), FStr(ms)))
Gif == Part("gif", "C29", FrameClauses(Frames, Ev.frames) \cup Pace(Par.fps, Ev.ms))
\* create_animation on a folder: the numbered pictures in numerical order, nothing else; no file if there are none
Folder ==
  /\ IsEvent("folder")
  /\ Want("C29") => Report(
       LET due == SetToSortSeq({Ev.numbers[i] : i \in 1..Len(Ev.numbers)}, LAMBDA a, b : a < b)
       IN IF due = <<>> THEN If(~Ev.made, Fail("animation without pictures", 0, "no file", "a file"))
          ELSE IF ~Ev.made THEN {Fail("animation of a folder", 0, ToString(due), "no file")}
          ELSE FrameClauses(due, Ev.frames) \cup Pace(Ev.fps, Ev.ms))
  /\ UNCHANGED <<run, st>>

TEnd ==
  /\ IsEvent("end")
  /\ Want("C14") => Report(
       If(CanEnd(Par), Fail("end of the run", run.i, ToString(<<Steps(Par), Report0(Par)>>), ToString(<<run.phase, run.out>>)))
       \cup If(Ev.pictures = run.saved, Fail("step pictures in the results directory", run.i, ToString(run.saved), ToString(Ev.pictures)))
       \cup If({Ev.parts[i] : i \in 1..Len(Ev.parts)} = Report0(Par), Fail("files of the report", run.i, ToString(Report0(Par)), ToString(Ev.parts))))
  /\ run' = [run EXCEPT !.phase = "done"]
  /\ UNCHANGED st
Raised == IsEvent("raise") /\ Report({Fail("the run raised an exception", run.i, "", Ev.what)}) /\ UNCHANGED <<run, st>>

Next == Step \/ Pic \/ Txt \/ Npz \/ Gif \/ Folder \/ TEnd \/ Raised
Spec == Init /\ [][Next]_vars
=============================================================================
