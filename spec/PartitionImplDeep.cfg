CONSTANT N = 6
SPECIFICATION Spec
INVARIANTS Acyclic Refines RankGrows LogDepth
PROPERTY FindKeepsClasses
