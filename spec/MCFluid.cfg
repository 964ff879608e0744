SPECIFICATION Spec
INVARIANTS Mobility Capillary TableAt Density Emit
PROPERTIES WaterStep GasStep PressureStep
CHECK_DEADLOCK FALSE
