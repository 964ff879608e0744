"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so that they stay in step)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "src/simulator/simulation.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None, level_note="", technique="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           **({"state": state} if state else {}), **({"observe_at": observe} if observe else {}),
                           "hook_needed": hook}, _note=level_note, _tech=technique, _na=na))


HOOK = "step tracing (src/simulator/step_trace.py): states of sub-steps and forced solver failures"
STEPOVER = ["configurations", "inputs", "histories"]
STEPTECH = ("TLA+ specification of the step (OilSim): exhaustive TLC exploration of small configurations, replay of its "
            "behaviours on the simulator, TLC trace validation of recorded runs")
STEPNOTE = ("TLC explores every choice sequence of the small configurations in binary64; on the code, every recorded sub-step "
            "(replayed behaviours and seeded random runs) is checked against the specification in interval arithmetic wide "
            "enough for binary32 rounding. Assumes runs sampled represent the rest; trusts TLC, FP.java and the recorder.")

prop("C01", "Saturations stay physical",
     "After every accepted time step the water, oil and gas saturations of every cell are finite, lie in [0,1] and sum to one. "
     "A phase never falls below its residual (connate, critical) saturation, nor, when it started a step below that, below where it started.",
     STEPOVER, "every model, initial state, well mix, step length and sequence of steps, including cut steps",
     "tests look at one or two mild models and a handful of steps; overshoot needs large steps, edge saturations, wells or gravity pushing on a limit",
     [SIM], [("saturation update with its limits and sub-steps", SIM + ":_impes_saturation_step"), ("derived saturations", SIM)],
     state=[{"name": "saturations", "meaning": "water, gas and oil fraction of the pore space of each cell", "where": "src/simulator/fluid.py"}], observe=["return of a time step"], hook=HOOK)
prop("C02", "Phase volumes are conserved and boundaries are closed",
     "In a step in which no saturation limit acts, the pore volume occupied by water and by gas changes exactly by the volume the wells put in or take out. "
     "Nothing enters or leaves through the outer boundary and nothing is created or lost between cells.",
     STEPOVER, "every grid shape, permeability field, fluid, well mix and step length for which no saturation limit is reached",
     "the mass-balance smoke test uses a loose bound on one model; a sign or neighbour slip on one axis or one phase cancels there",
     [SIM], [("divergence of phase fluxes", SIM + ":_impes_saturation_step"), ("transmissibilities", SIM + ":__init__")],
     observe=["fields before and after a step"], hook=HOOK)
prop("C03", "Saturations follow upstream-weighted transport",
     "The saturation change of every cell in a step is the one given by Darcy flow through its faces with upstream phase mobilities at the new pressure, gravity and gas-oil capillary forces, plus its wells, then brought back inside the saturation limits. "
     "Each phase flows down its own potential, and out of a cell only if it is mobile there.",
     STEPOVER, "every grid (one to three dimensions), heterogeneous permeability and pore volume, relative permeability model, capillarity, density contrast, pressure field and step",
     "needs an independent evaluation of the transport equations for arbitrary states; tests only look at sums and bounds",
     [SIM, "src/simulator/fluid.py"], [("phase potentials and upwinding", SIM + ":_impes_saturation_step"), ("mobilities", SIM)],
     observe=["fields before and after a step"], hook=HOOK)
prop("C04", "The accepted pressure balances volumes in every cell",
     "After an accepted step the pressure of every cell satisfies the discrete volume balance: accumulation by total compressibility, inter-cell flow by harmonic transmissibility and upstream total mobility, gravity and capillary sources, and wells add up to zero within the solver's tolerance. "
     "Cells without permeability only respond to their own compressibility.",
     STEPOVER, "every grid, permeability field, fluid, well mix, step length and linear solver, single and double precision",
     "a test can compare two solvers of the same wrong matrix; the residual of an independently formulated balance for arbitrary models is not testable by examples",
     [SIM, "src/simulator/fluid.py", "src/simulator/reservoir.py"],
     [("matrix and right-hand side", SIM + ":_build_pressure_matrix_vectorized"), ("well terms", SIM + ":_calculate_well_terms")],
     observe=["pressure before and after a step"], hook=HOOK)
prop("C06", "Rate-controlled wells at reservoir conditions do what they are told",
     "A rate injector puts exactly its requested rate of exactly its phase into its cell, less only what the cell's saturation limits cannot take; a rate producer withdraws exactly its rate, split between phases by their mobilities. "
     "The request is the control value times the global rate scale, and both the pressure and the saturations see it with the right sign.",
     STEPOVER, "every well position, rate (zero and negative included), injected phase, cell state, rate scale and number of wells per cell",
     "tests check one producer and one injector in a mild cell",
     [SIM, "src/simulator/well.py"], [("rate wells in the pressure equation", SIM + ":_calculate_well_terms"), ("rate wells in the transport step", SIM + ":_impes_saturation_step")],
     observe=["fields before and after a step", "reported well rate"], hook=HOOK)
prop("C07", "Surface-rate targets, phase limits and reported surface rates agree",
     "A producer on a surface-rate target withdraws the reservoir volume that yields that target through the formation volume factors, dissolved gas and vaporised oil, and a surface-rate injector puts in the volume its factor gives. "
     "No reported phase rate exceeds its limit, and the reported surface rates are exactly those of the volume withdrawn.",
     STEPOVER, "every PVT table, target phase, combination of limits, pressure and cell saturation",
     "conversion tests use one table and one target; limits are tested for oil only",
     [SIM, "src/simulator/well.py"], [("surface conversion, choke and limits", SIM + ":_impes_saturation_step")],
     observe=["reported surface rates", "fields before and after a step"], hook=HOOK)
prop("C08", "The minimum bottom-hole pressure is never violated",
     "A rate producer with a minimum bottom-hole pressure never withdraws more than flows at that pressure and never injects. "
     "It works at its rate whenever that needs no lower pressure, switches otherwise, and reports which of the two it did.",
     STEPOVER, "every minimum pressure above or below the reservoir pressure, rate, mobility and well index",
     "one test checks that outflow is reduced in one configuration",
     [SIM], [("switching in the pressure equation", SIM + ":_calculate_well_terms"), ("cap on the withdrawn volume", SIM + ":_limit_rate_by_bhp_min")],
     observe=["fields before and after a step", "reported control mode"], hook=HOOK)
prop("C09", "Pressure-controlled wells flow by their pressure difference",
     "A well on bottom-hole-pressure control exchanges with its cell its well index times the mobility times the difference between cell and well pressure, in the direction of that difference. "
     "An injector delivers only its own phase, a producer takes phases in proportion to their mobilities, and the pressure and transport equations use the same well.",
     STEPOVER, "every well pressure relative to the cell (cross-flow included), position, radius, permeability and cell state",
     "no test drives pressure-controlled wells against their cells or checks the exchanged volumes",
     [SIM, "src/simulator/well.py"], [("pressure-controlled wells in both equations", SIM + ":_calculate_well_terms"), ("well index", "src/simulator/well.py")],
     observe=["fields before and after a step"], hook=HOOK)
prop("C10", "The component ledger books every well once, in surface volumes",
     "With a PVT table, the oil and gas component totals grow in each step by exactly the surface volumes the wells injected and produced in it, dissolved gas and vaporised oil included, cross-flow on the side it flows, each well and sub-step once. "
     "The accumulated amounts are always in minus out.",
     STEPOVER, "every well mix, PVT table with or without vaporised oil, cut steps and sequence of steps",
     "the one test compares totals for two wells on one table after one step",
     [SIM], [("component bookkeeping", SIM + ":_impes_saturation_step")],
     observe=["component totals after every sub-step"], hook=HOOK)
prop("C11", "The phase mass ledger records what moved",
     "In each step the mass totals of every phase grow by the pore volume times density of the cells whose saturation rose (in) or fell (out), at the new pressure. "
     "In minus out therefore equals the change in place, step after step, and a rejected attempt books nothing.",
     STEPOVER, "every model, density law and sequence of accepted, cut and failed steps",
     "the mass-balance test accepts a tolerance orders of magnitude above what a step moves",
     [SIM], [("mass ledger", SIM + ":_impes_saturation_step")], observe=["mass totals after every sub-step"], hook=HOOK)
prop("C12", "An accepted step covers exactly the time that was asked for",
     "When a time step reports success, the lengths of its accepted sub-steps add up to the requested length, whatever solver failures happened on the way. "
     "After a failed attempt the length is divided by the configured factor, and there are never more attempts than the configured number of failures allows.",
     ["fault_sequences", "inputs"], "every sequence of solver outcomes, failure budget, reduction factor and step length",
     "solver failures hardly ever happen in tests; the property is about every place where one can happen",
     [SIM], [("time-step control", SIM + ":_impes_step"), ("fully implicit step control", SIM + ":_fully_implicit_step")],
     observe=["attempts and accepted sub-steps of a call"], hook=HOOK)
prop("C13", "A failed step is reported and leaves everything as it was",
     "A time step reports success exactly when all of it was solved. "
     "When it reports failure, pressure, saturations, both ledgers and the well diagnostics are exactly what they were before the call, also if some sub-steps had been accepted.",
     ["fault_sequences", "inputs"], "every sequence of solver outcomes within the failure budget, and real non-convergence",
     "requires failures after partial success, which no test provokes",
     [SIM], [("snapshot and restore", SIM + ":_restore_state"), ("convergence verdicts of the solvers", SIM + ":_impes_pressure_step")],
     observe=["state after the call"], hook=HOOK)

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

import sys
sys.path.insert(0, os.path.join(V, "harness"))
claimed = set(json.load(open(os.path.join(V, "tools", "claimed.json"))))
P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
       "hooks": {"guard": "OIL_SIM_TRACE", "enable": "environment variable OIL_SIM_TRACE=1 when the simulator is imported",
                 "source_commits": ["a1832f7"]},
       "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                   "technique": p["_tech"] or STEPTECH, "level": "model_checking", "level_note": p["_note"] or STEPNOTE}
                  for p in P if p["id"] in claimed],
       "not_applicable": [{"property": p["id"], "reason": p["_na"] or "not built yet"} for p in P if p["id"] not in claimed]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
