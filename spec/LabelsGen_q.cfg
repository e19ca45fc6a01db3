SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Kinds = {"stay","1","2","3","far","noSi","twoSiB","noSiB","twoSiA","ctl0","ctl2","twofold","four","fewB","fewA","tinyB","mismatch"}
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
