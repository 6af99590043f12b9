CONSTANT N = 5
SPECIFICATION Spec
INVARIANTS Acyclic Refines RankGrows LogDepth
PROPERTY FindKeepsClasses
