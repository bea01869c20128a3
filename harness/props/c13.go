package props

import "verif/harness/sym"

func C13_OneOp()        { listOpsSequence(false, 6, 1) }
func C13_TwoOps()       { listOpsSequence(false, 2, 2) }
func C13_AnyPosition()  { listAnyPosition(false) }
func C13_Long()         { listLong(false) }
func C13_Nil()          { listNil(false) }
func C13_ThreeOps()     { listOpsSequence(false, sym.Tier(), 3) }
func C13_AnyPositions() { listAnyPositions(false) }
func C13_Far()          { listFar(false) }
