SPECIFICATION Spec
CONSTANTS SR = 1
 SC = 2
 MR = 2
 MC = 2
 Layers = 1
 Wide = FALSE
INVARIANTS Refused RefusedPlain Plain Selects Grounded Small Stored Later Aligned Follows
