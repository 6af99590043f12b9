CONSTANTS
  NC = 2
  MaxRows = 3
  R = 1
INIT Init
NEXT Next
INVARIANTS EchelonB SameLattice SameDet HnfSound HnfShape RrefRank Leibniz InverseOk
