CONSTANTS H = 3  MaxLen = 4  MaxSegs = 2  Sigmas <- Signed
SPECIFICATION Spec
INVARIANTS NoGap EndsAtEnd EveryMultiple Count StateOnPath RepeatedOnlyAtJump PrintSeq
CHECK_DEADLOCK FALSE
