HOOK_COMMITS = ["2c1a055"]
NA = {}
TECH["C01"] = "TLA+/TLC: exhaustive refinement of the union-find forest; TLC-generated and random histories replayed and trace-checked"
NOTE["C01"] = ("Forest model refines the abstract partition for all histories on 5 (thorough: 6) elements; the real code is bound by "
               "validating recorded call histories (all 8000 of length 3 on 4 elements, simulated and random longer ones) against the abstract spec. "
               "Trusts TLC and the driver; code is judged on the histories executed.")
COMMON = " Trusts TLC, the driver and the recorded projection; the code is judged on the inputs executed."
GT = "TLA+/TLC: calls recorded from the real code on TLC-enumerated and random graphs are validated against PGraph%s"
TECH["C02"] = GT % " (canonical edges, incidences, printed order)"
NOTE["C02"] = "Edge lists of TLC's GraphGen enumeration, random lists with duplicates, reversals, sparse and huge labels, label vectors with their arithmetic, named nets, graphs of up to 36 vertices, the printed form." + COMMON
TECH["C03"] = "TLA+/TLC: exhaustive model of the cache machine; its query histories (all of length 2/3, simulated length 14) replayed on real graphs and trace-checked against fresh copies"
NOTE["C03"] = "GraphCache model checked exhaustively at the listed length; each history runs on stable, unstable, ladder, supercell and disconnected graphs." + COMMON
TECH["C04"] = GT % ": shells of the infinite net" + "; CoordImpl (two-shell algorithm) checked exhaustively against walks on all graphs of the enumeration"
NOTE["C04"] = "Terms up to 16 (2D) / 10 (3D); connected and disconnected graphs of up to 30 vertices, interleaved iterators, sequences read again and again from one graph." + COMMON
TECH["C05"] = GT % ": components, cycle lattices, determinantal divisors" + "; Traverse (the tree walk that numbers and regauges components) checked exhaustively against those definitions"
NOTE["C05"] = "Traverse: all graphs of the listed size in every order of taking edges. Replay includes graphs of up to 36 vertices, several components, lower rank, interpenetrating sublattices." + COMMON
TECH["C06"] = GT % ": a vertex-wise regauging to the observed graph must exist and zero-shift edges must span" + "; Traverse checked exhaustively against the same conditions"
NOTE["C06"] = "Same inputs as C05." + COMMON
TECH["C07"] = GT % ": harmonic placement (verified certificate), stability and unique-vector lookup derived from it"
NOTE["C07"] = "Placements supplied by the harness are verified in TLA+ (harmonic, connected => unique)." + COMMON
TECH["C08"] = "TLA+/TLC: SymDesign (the search that extends a partial map along a traversal) checked against the definition for all small nets; complete enumeration of the automorphisms of placed nets (PGraphIso), compared with recorded symmetries and products"
NOTE["C08"] = "Connected locally stable nets; PGraphIso: at most 12 vertices (symmetric ones and long covers up to 24); AutoTrace (unbounded rationals): up to 48 vertices with little symmetry; FrameTrace: supercells of index up to 48, and pairs of frames with skewed bases, up to 48 vertices: enumerated, named, random, supercells, ladders, twisted ladders, covers, in scrambled names, representatives and bases." + COMMON
TECH["C09"] = "TLA+/TLC: orbits of the enumerated automorphism group compared with recorded orbits"
NOTE["C09"] = NOTE["C08"]
TECH["C10"] = "TLA+/TLC: pure translations, ladder symmetries and ladder-free complements derived from the enumerated group, compared with recorded classes"
NOTE["C10"] = NOTE["C08"]
TECH["C11"] = "TLA+/TLC: the quotient by an admissible translation group is constructed in TLA+ and an isomorphism to the recorded image is searched exhaustively"
NOTE["C11"] = NOTE["C08"] + " Images too large for TLC's integers are counted as unjudged."
TECH["C12"] = "TLA+/TLC: exact rational linear algebra (QMat) decides every recorded result of extend_basis, rank, determinant, reduced basis and gcdx"
NOTE["C12"] = "QMat is itself validated against first principles and the basis-extension design by LinLaws. Matrices up to 4x4, rational ones up to 6x6, some up to 12 rows and columns, i32, i64, big-integer and rational entries, degenerate shapes, low rank." + COMMON
TECH["C13"] = TECH["C12"].replace("extend_basis, rank, determinant, reduced basis and gcdx", "null_space, inverse and solve")
NOTE["C13"] = NOTE["C12"].replace(" Trusts", " Refusals (no solution, singular) are judged both ways. Trusts")
TECH["C14"] = "TLA+/TLC: residue arithmetic and exact solutions over QMat decide recorded results; PAdic model checks the lifting design"
NOTE["C14"] = "Entries up to 1e11 and primes below 3e9, of either sign; singular and regular systems of up to 24 unknowns." + COMMON
TECH["C15"] = "TLA+/TLC: matrices, vectors and affine maps over exact rationals (Affine, GeomTrace; laws of Affine checked for all small maps, AffineLaws) decide every recorded operation"
NOTE["C15"] = "Dimension 1 to 4, rational entries, all public matrix, vector, map and form operations, with refusals where no result exists." + COMMON
TECH["C16"] = "TLA+/TLC: closure machine (GroupGen) checked for all small generator lists; recorded generate and PrimitiveSetting results validated against Group"
NOTE["C16"] = "Settings of the shipped table (thorough: all) and random groups in scrambled bases, dimension 1 to 4, shifts of either sign; group sizes up to 60 and up to three large groups (thorough: up to 400)." + COMMON
TECH["C17"] = "TLA+/TLC: recorded configuration and shift spaces validated against Group; the oracle's dimensions are checked against character averages for all 2-generator subgroups (GroupLaws)"
NOTE["C17"] = "Groups of the shipped table, random groups in any rational basis, lists with few or no invariants." + COMMON
TECH["C18"] = "TLA+/TLC: Lagrange, Selling and Dirichlet-shift machines checked for all small forms; recorded reductions, Dirichlet vectors, shifts and rational bases validated against Lattice (coset minima from a verified obtuse superbase)"
NOTE["C18"] = "Reductions in dimension 1 to 3, rational bases up to dimension 6 and up to 90 vectors, rational forms, points on cell boundaries; exact coordinates, with tolerances from zero up to what separates the sample." + COMMON
TECH["C23"] = "TLA+/TLC: FinderGen enumerates plane groups in many bases (and 3x3 operators), checking the classification against invariant forms; the recorded answers of the code are validated against Finder"
NOTE["C23"] = "All subgroups of the two maximal plane groups in bases with entries up to 1 (thorough 3) and random rational bases; operators in dimension 1 to 3 with sense and axis. Observed through a guarded hook; identitify_spacegroup_2d itself ends in todo!() upstream and is not judged." + COMMON
TECH["C19"] = "TLA+/TLC: operator notation as an explicit reader machine (Operator); its walks, enumerated by TLC, and random well-formed, mutated and absurd texts are replayed and the results validated"
NOTE["C19"] = "All token walks up to length 5 (thorough 6) over a 12-letter alphabet; printing through table entries and reading back. Where a text is beyond the notation proper (blanks around '*', >9 digits, exotic blanks, upper case) refusing is accepted." + COMMON
TECH["C20"] = "TLA+/TLC: table reader machine (Table); all tables of up to 4 (thorough 5) lines over 12 kinds of line, random tables and the shipped one are read by the real code and validated; the laws of the shipped table are decided on what the code reports"
NOTE["C20"] = "The shipped file is read whole by the code and judged part by part (every setting, alias, lookup, all 90 lookup queries); tables of many hundred lines against short twins, names of any characters; group and transform laws on 180 of 549 settings (thorough: all). Duplicate names and settings before any canonical one are not judged." + COMMON
TECH["C21"] = "TLA+/TLC: line grammar with exact number values (Line, its rounding checked by RoundLaws); all lines up to length 4 (thorough 5) over 11 characters and random Unicode lines are read by the real code and validated, decimal values by exact rounding to binary64"
NOTE["C21"] = "Tokens are maximal prefixes separated by blanks or tabs; numbers include subnormals, midpoints and overflow." + COMMON
TECH["C22"] = "TLA+/TLC: block machine over Line (Blocks), checked for its own laws and replayed for all files up to 4 (thorough 5) lines over 10 (12) kinds of line, plus random files and long ones; recorded blocks and entries validated"
NOTE["C22"] = "Observed through guarded accessors. Lower case of keywords is judged for Latin, Greek and Cyrillic letters except final sigma and dotted capital I; line numbers of a trailing void block and leading blanks of the unread rest are not judged." + COMMON
TECH["C24"] = "TLA+/TLC: reader machine with chunks, interrupts and failures (Reader, safety and termination checked); its schedules, every fault position of random files and hostile texts are run on the real code and validated against Blocks and fault-free tables"
NOTE["C24"] = "Texts up to 4 (thorough 5) bytes in the model; random files up to 220 bytes with all fault positions (quick: a sample), lines around buffer sizes, inputs up to 20 KB (thorough 200 KB). For hostile text only termination with a result is judged here." + COMMON
TECH["C25"] = TECH["C12"].replace("extend_basis, rank, determinant, reduced basis and gcdx", "operation on binary64 matrices (exact value of every entry; tolerance 1e-6 only where rounding is unavoidable)")
NOTE["C25"] = "Grids of small matrices and random matrices up to 5x5 with power-of-two pivots (exact equality) and entries up to 2^29 beside 1, well-behaved square ones up to 6x6 (tolerance). Elimination is judged in the order of the rows; ill-conditioned matrices are not judged." + COMMON
