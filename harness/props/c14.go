package props

import "verif/harness/sym"

func C14_OneOp()    { mapOpsSequence(false, 3+sym.Tier(), 1) }
func C14_TwoOps()   { mapOpsSequence(false, 2, 2) }
func C14_ThreeOps() { mapOpsSequence(false, sym.Tier(), 3) }
func C14_AnyKeys()  { mapAnyKeys(false) }
func C14_Entries()  { mapEntries(false) }
func C14_MapOf()    { mapOf(false) }
func C14_CopyOf()   { mapCopyOf(false) }
func C14_Long()     { mapLong(false) }
func C14_Nil()      { mapNil(false) }
func C14_Decoded()  { mapDecoded(false) }
