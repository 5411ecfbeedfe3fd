CONSTANTS H = 2  MaxLen = 3  MaxSegs = 2  Sigmas <- Signed
SPECIFICATION Spec
INVARIANTS NoGap EndsAtEnd EveryMultiple Count StateOnPath RepeatedOnlyAtJump PrintSeq
CHECK_DEADLOCK FALSE
