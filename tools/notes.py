common = ("Within the bounds stated in DESIGN.md and counted in the evidence every input value is covered by solver verdicts; "
          "trusted: the engine's translation of SSA (validated by replaying sampled paths natively), its models of a few library "
          "intrinsics, z3 and the Go compiler. Paths the engine could not finish are listed in the evidence and lower the bound.")
