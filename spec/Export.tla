------------------------------- MODULE Export -------------------------------
(* Exporting the model for visualisation.  A file holds a picture of the fields of the moment it
   was written; writing one changes neither the fields nor any other file.
   fields: [P, sw, sg, so, kx, kz], in the numbering of Config!CellOf;
   dims and cell size d are those of the grid. *)
EXTENDS Verdict

VARIABLES fields, files         \* files: name -> fields

Change(st) == fields' = st /\ UNCHANGED files
SaveAs(name) == files' = [g \in DOMAIN files \cup {name} |-> IF g = name THEN fields ELSE files[g]] /\ UNCHANGED fields

\* VTK numbers cells and points with X fastest
VtkIndex(dims, i, j, k) == 1 + i + j * dims[1] + k * dims[1] * dims[2]
VtkX(dims, q) == (q - 1) % dims[1]
VtkY(dims, q) == ((q - 1) \div dims[1]) % dims[2]
VtkZ(dims, q) == (q - 1) \div (dims[1] * dims[2])
\* the cell shown at place q of a VTK array
ShownAt(dims, q) == CellOf(dims, VtkX(dims, q), VtkY(dims, q), VtkZ(dims, q))
Count(dims) == dims[1] * dims[2] * dims[3]

Shows(what, dims, A, ok(_, _), want(_)) ==
  IF ~Has(A, what) THEN {Fail("array " \o what, 0, "present", "missing")}
  ELSE IF Len(A[what]) # Count(dims) THEN {Fail("array " \o what \o ": length", 0, ToString(Count(dims)), ToString(Len(A[what])))}
  ELSE Each("array " \o what \o ": value of the cell shown there", 1..Count(dims),
            LAMBDA q : ok(A[what][q], ShownAt(dims, q)), LAMBDA q : want(ShownAt(dims, q)), LAMBDA q : FStr(A[what][q]))
Exactly(what, dims, A, s) == Shows(what, dims, A, LAMBDA x, c : x = s[c], LAMBDA c : FStr(s[c]))
Rounded(what, dims, A, f(_)) == Shows(what, dims, A, LAMBDA x, c : Agrees(f(c), x), LAMBDA c : Str(f(c)))

\* the cell file: r = [dims: cells along each axis, x, y, z: nodes, A: arrays]
Nodes(what, n, h, got) ==
  IF Len(got) # n + 1 THEN {Fail("nodes along " \o what, 0, ToString(n + 1), ToString(Len(got)))}
  ELSE Match("nodes along " \o what, got, LAMBDA i : Rnd(Int2N(i - 1) \otimes h))
CellFileClauses(dims, d, st, r) ==
  IF r.dims # dims THEN {Fail("cells of the exported grid", 0, ToString(dims), ToString(r.dims))}
  ELSE Nodes("x", dims[1], Raw(d[1]), r.x) \cup Nodes("y", dims[2], Raw(d[2]), r.y) \cup Nodes("z", dims[3], Raw(d[3]), r.z)
       \cup Rounded("Pressure_MPa", dims, r.A, LAMBDA c : Raw(st.P[c]) \oslash MPa)
       \cup Exactly("Water_Saturation", dims, r.A, st.sw) \cup Exactly("Oil_Saturation", dims, r.A, st.so)
       \cup Exactly("Permeability_H", dims, r.A, st.kx) \cup Exactly("Permeability_V", dims, r.A, st.kz)
\* the point file of a run: r = [dims, pts, A]
PointFileClauses(dims, st, r) ==
  IF r.dims # dims THEN {Fail("points of the exported grid", 0, ToString(dims), ToString(r.dims))}
  ELSE If(r.pts = [q \in 1..Count(dims) |-> <<VtkX(dims, q), VtkY(dims, q), VtkZ(dims, q)>>],
          Fail("order of the points (X fastest)", 0, "", ToString(r.pts)))
       \cup Exactly("Pressure", dims, r.A, st.P) \cup Exactly("Water_Saturation", dims, r.A, st.sw)
=============================================================================
