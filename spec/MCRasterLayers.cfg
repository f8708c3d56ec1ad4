SPECIFICATION Spec
CONSTANTS SR = 1
 SC = 2
 MR = 1
 MC = 2
 Layers = 2
 Wide = FALSE
INVARIANTS Refused RefusedPlain Plain Selects Grounded Small Stored Later Aligned Follows
