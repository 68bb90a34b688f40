NA = {}
NOTE = {
 "L06": ("TLA+ specification of exact arithmetic (BigInt, ArithTrace); TLC validates recorded register machine programs",
         "Every recorded command of randomly generated programs over integers and rationals of up to some 700 bits is recomputed exactly by TLC, and all registers are compared after each step; trusts the TLA+ bignum module and TLC; sampled, not exhaustive."),
 "L01": ("TLA+ big-step semantics of axis (Axis, AxisTrace); TLC validates recorded sessions of random programs",
         "Random typed programs (assignments to variables, components, fields, aliases, closures) run in the real interpreter; TLC recomputes every value, every printed line and the values of all globals after each command. Sampled; integers kept small."),
 "L02": ("TLA+ big-step semantics of axis (Axis, AxisTrace); TLC validates recorded sessions of random and exhaustively enumerated small programs",
         "All slices, subscriptions and loop forms of every array kind for all small bounds, flags and break positions, plus random programs with nested loops, breaks and returns; TLC recomputes values and side effects."),
 "G01": ("TLA+ specification of root data (RootDatum, Lin); TLC explores the reflections from the simple roots together with the recorded tables",
         "All roots of every datum in a list of types and lattices (semisimple and reductive, both coroot preferences, simple roots in random lattice bases) are generated by reflections in TLC in parallel with the implementation's reflection tables, and every exported attribute is checked against its definition; ranks up to 8 in the thorough run."),
 "G02": ("TLA+ specification of the reflection group (Weyl); TLC explores whole Weyl groups together with the recorded multiplication tables",
         "For all small types TLC enumerates the matrix group and the implementation's elements in parallel (left and right multiplication, inverse); for larger types random products, decompositions and orbits of the full group and of reflection subgroups are validated against their definitions."),
 "G04": ("TLA+ specification of strong involutions with cross actions and Cayley transforms (KGB); TLC explores it in parallel with the recorded tables",
         "For every real form of a list of inner classes (all isogeny types, tori, complex groups) with bounded orbit number TLC enumerates the strong involutions from the base one and follows the recorded cross and Cayley tables; closure order, status of all roots, synthesis from torus factors and irredundance are checked."),
 "G05": ("TLA+ specifications of blocks as fibre products (Block) and of parameter blocks (ParamBlock); TLC explores them in parallel with the recorded tables",
         "Blocks of pairs of real forms up to a size bound are explored as pairs of orbit graph elements; parameter blocks at random regular, singular and non-integral infinitesimal characters are explored as pairs (x, kappa) with cross actions and Cayley transforms defined by reflections; Bruhat order, survivors, partial blocks and single parameter operations are compared. The orbit graph tables themselves are covered by G04."),
 "G06": ("TLA+ specification of the Hecke module of a block (KL); TLC checks the characterising relations at every element of recorded blocks",
         "At each element y of each recorded block TLC verifies triangularity, degree bound, positivity, the eigenvalue relation for all descents and the recursion relation for all other generators (which determine the polynomials), duality, condensed, partial, column and printed forms. Blocks up to a size bound."),
 "G07": ("TLA+ specifications of W-graphs over the Hecke module (WGraph) and of strong components (Graphs); TLC checks recorded graphs",
         "W-graphs and cells of blocks of real form pairs and of parameters are compared with the mu-coefficients of the verified polynomials; quadratic and braid relations are checked on every basis vector (at q=4); strong components for all digraphs on up to 3 vertices and random larger ones."),
 "G08": ("TLA+ specification of parameters as triples (x, lambda up to (1-theta)X^*, nu) with reflections and Cayley transforms (ParamBase, Param); TLC checks recorded parameters and operations",
         "Parameters with random lambda, nu (integral, half-integral, singular, non-dominant) over all small real forms: predicates standard/zero/semifinal/final, dominance, equality and equivalence against TLC-computed orbit keys, normal forms, finals expansion, height, and arithmetic of parameter polynomials. Sampled parameters."),
 "G10": ("TLA+ model of the store of blocks (Store) from which TLC generates histories of queries; replayed, and the answers judged by TLC (HistoryTrace)",
         "TLC's histories cover the classes (kind of query, element absent / in a partial / in a full stored block, blocks absorbed, polynomials remembered); about 38 kinds of queries on parameters in shared, translated and singular families; each answer is compared with that of a session which computed nothing else. The order of lists is not compared."),
 "U01": ("TLA+ register machines over the mathematical objects the containers represent (Containers); TLC validates histories recorded from the real containers",
         "Random histories of operations (all set, list, hash table, partition, permutation, poset and preorder operations, with positions biased to word boundaries, aliasing and moved-from operands) are recorded by a harness linked with the library, and every result and the complete contents after each step are compared with the specification. Sampled."),
 "U02": ("TLA+ specification of polynomial arithmetic (Polys); TLC validates histories recorded from the real polynomial classes",
         "Random histories over integer polynomials and over natural polynomials with 8, 16 and 32 bit coefficients (near the overflow limits, with aliased operands, exact and inexact divisions); every result, reported overflow and printed form is recomputed by TLC. Sampled."),
 "G09": ("TLA+ register machine over free modules on final parameters and K-types (Linear); TLC validates recorded histories (LinearTrace)",
         "Random histories of sums, multiples, coefficient assignments, truncations and conversions of parameter and K-type polynomials, split integers, and of the C++ template classes behind them with several comparison functions; every value is recomputed by TLC. Sampled."),
 "L08": ("TLA+ specification of integer and mod 2 linear algebra by characterisation (LinAlg, F2); TLC validates recorded results (LinAlgTrace)",
         "Results of echelon forms, Smith forms, solutions of linear systems, kernels, lattices and mod 2 sections, for random matrices of many shapes and ranks through axis and through a harness linked with the library, are judged by the equations and divisibility or echelon conditions that define them. Sampled; entries kept within 32 bits."),
 "G11": ("TLA+ specification of deformation and signature sums over the Hecke module of a block and of reducibility points and orientation numbers by root integrality (Deform); TLC checks recorded blocks and families closed under deformation",
         "For recorded parameter blocks TLC recomputes from the polynomials every signature sum, its height truncations, the deformation combination and block deformations of random combinations; orientation numbers and reducibility points are recomputed from root integrality; for families closed under deformation the full deformation is checked by its recursion equation, including stored and timed variants. Groups and denominators up to a bound; sampled parameters."),
 "G12": ("TLA+ specification of K-types, their normal forms, K-restriction expansions, branching and the Zuckerman character formula (KType over Deform/ParamBase); TLC checks recorded K-types",
         "For recorded K-types of many real forms TLC decides standardness, normal form, equivalence, heights and expansion from the root data, grows the KGP set by its own state machine, recomputes KGP sums and K-type formulas as products over the u-roots, and checks truncations and branching by substituting the formulas back. Sampled K-types; heights up to a bound; memoised formulas only for standard semifinal K-types."),
 "G14": ("TLA+ specification of integrality, alcoves and Weyl group orbits modulo the root lattice from pairings with coroots (Alcove); TLC grows each orbit as a state machine and checks recorded results",
         "Integrally simple coroots, integrality points, the walls and root vertex of an alcove, its attitude, alcove centres of parameters, lists of coset representatives and the facets of the fundamental parallelepiped are recorded for weights on random facets and compared with what the pairings determine (hyperplanes crossed, orbits grown by reflections). Sampled weights; orbits in Weyl groups up to a bounded order."),
 "G03": ("TLA+ specification of strong involutions over the adjoint group, its dual and the group itself (InnerClass); TLC explores them from the root datum and compares the classification with the recorded one",
         "For inner classes of small rank and all kinds of isogeny TLC explores every strong involution by cross actions and Cayley transforms without using the program's tables; its connected components, conjugacy classes of involutions, fibers and their partition, types of tori and roots, component groups, orders and block sizes are compared with everything the program reports about real forms and Cartan classes. Inner classes up to a bound on the number of orbits."),
}
