#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=None)))
I='sources/interpreter/'; S='sources/structure/'; K='sources/gkmod/'; U='sources/utilities/'
p('L01','Variables have value semantics and assignments take effect in program order',
 'In an axis program, assigning to a variable, or to a component or field of it, changes the value of exactly that variable instance (and for a component assignment exactly that component); no other variable, row, tuple, stored function or previously computed value ever changes. Subexpressions are evaluated in the documented order, an assignment expression yields the assigned value, and every closure keeps its own captured variable instances.',
 ['programs','inputs'],'all well-typed programs of the core language: every nesting of let, functions, closures, recursion, component assignments and copies, over all integer/row/tuple values',
 'Existing tests load scripts or compare mathematical results; they sample a few programs and never look at aliasing, evaluation order or capture. The property quantifies over all programs, and sharing bugs need a particular combination of copy, capture and in-place update.',
 [I+'axis.w',I+'axis-types.w'],
 [('shared_value reference counts with uniquify before in-place modification',I+'axis.w component_assignment / axis-types.w uniquify'),('evaluation_context chain captured by closures',I+'axis-types.w shared_context'),('move-out of last use of local variables',I+'axis.w')],
 [('evaluation context','chain of frames holding local variable values',I+'axis-types.w'),('global identifier table','values of global variables',I+'global.w')],['printed values of commands'])
p('L02','Loops, breaks, returns, choices and slices compute the documented values',
 'Every loop form delivers exactly the sequence of body values of its completed iterations, in traversal order or reversed as written, and produces its side effects in traversal order; break leaves the designated number of enclosing loops and return leaves the innermost function with the given value, in each case keeping side effects already made. Choice expressions evaluate exactly the selected branch (integer cases reduce out-of-range selectors as documented), and subscriptions and slices, reversed or not, select exactly the documented elements or report an index error.',
 ['programs','inputs'],'all nestings of while/for/counted loops with every reversal variant, break depth, next, return, case and slice bound (including out-of-range and negative bounds)',
 'There is a separately generated evaluator specialisation for every combination of loop kind, iterated type, reversal flags and use of the value; scripts exercise only a few of them and none checks them against a definition.',
 [I+'axis.w',I+'parsetree.w'],
 [('for_expression/counted_for_expression/while_expression instances by flags',I+'axis.w'),('loop_break and function_return exceptions',I+'axis.w'),('slice_subscr bound adjustment',I+'axis.w')],
 [('loop state','current index, accumulated row',I+'axis.w')],['printed values of commands'])
p('L03','A failing command never changes definitions, and definitions evolve as specified',
 'The tables of global identifiers, function overloads and type names change only through successfully completed definition, forget and declaration commands, each of which takes effect as a whole or not at all; a command stopped by a syntax, type or runtime error leaves every definition as it was (only assignments already executed before the error persist), and the session goes on normally. A definition replaces a previous one exactly when identifier (and for functions argument type) agree, and functions defined earlier keep the bindings they were analysed with.',
 ['histories','fault_sequences'],'all histories of set, simultaneous set, declaration, set_type, forget, assignment and expression commands, interleaved with failing commands of every kind',
 'Scripts only ever exercise successful straight-line histories: a script with a failing command counts as a failing test, so state after errors and after redefinition or forgetting is never examined.',
 [I+'global.w',I+'main.w',I+'axis.w'],
 [('Id_table::add/remove, overload_table::add/remove',I+'global.w'),('do_global_set two-phase analysis',I+'global.w definition groups'),('reset_evaluator after errors',I+'main.w command loop')],
 [('Id_table','identifier to (value,type)',I+'global.w'),('overload_table','symbol to variants list',I+'global.w')],['replies to commands','whattype','values of calls'])
p('L04','Static typing: overloads and implicit conversions resolve as documented',
 'Whether an expression is accepted, the type it is given, the overload instance that is called and the implicit conversions that are inserted are determined by the types of its parts and the documented rules (exact match first, then conversion; balancing of branches; narrower overload preferred), independently of the order in which overloads were defined. Overload definitions that would make a call ambiguous are refused, and a value delivered at run time always has the structure of its static type.',
 ['programs','histories'],'all sets and orders of overload definitions over the primitive and composite types, and all argument expressions over them',
 'Tests call functions whose overloads are all present at start-up; the rules quantify over orders of definition and pairs of close types which no script enumerates.',
 [I+'axis-types.w',I+'axis.w',I+'global.w'],
 [('is_close proximity relation','sources/interpreter/axis-types.w'),('coercion table','sources/interpreter/axis-types.w'),('resolve_overload','sources/interpreter/axis.w'),('balance','sources/interpreter/axis.w')],
 [('overload variants order','variants kept sorted so that narrower types come first',I+'global.w')],['replies to commands','whattype'])
p('L05','Type definitions are purely structural, also for recursive types',
 'Two type expressions are interchangeable exactly when they unfold to the same (possibly infinite) tree of primitive types and constructors, whatever type names were used, in whatever order or grouping they were defined, and whether or not names have been forgotten since. Projectors, injectors and case discrimination act on the component or variant designated by the tag.',
 ['histories','programs'],'all sequences of (mutually) recursive type definitions and all pairs of types built from them',
 'Scripts define a handful of recursive types once; equivalence of separately defined mutually recursive groups, and defining order, is never compared.',
 [I+'axis-types.w',I+'global.w'],
 [('type_map::tabelled add_typedefs partition refinement',I+'axis-types.w user defined types'),('process_type_definitions',I+'global.w')],
 [('type_map','table of structurally distinct types',I+'axis-types.w')],['acceptance of casts','whattype'])
p('L06','Integer and rational arithmetic is exact',
 'All operations on integers and rational numbers (sum, difference, product, Euclidean quotient and remainder, power, comparison, bitwise operations, conversion to and from decimal text, numerator/denominator) give the mathematically exact result for operands of any size, quotient and remainder satisfy the Euclidean law with remainder of the documented sign, rationals are always reduced with positive denominator, and division by zero is reported as an error.',
 ['inputs','histories'],'all integers and rationals of any size, and all sequences of operations (results being reused in place)',
 'Scripts use small numbers almost exclusively; carries, borrows, word boundaries, sign combinations and in-place reuse of operands are not sampled.',
 [U+'bigint.cpp',U+'bigint.h',U+'arithmetic.cpp',I+'global.w'],
 [('big_int digit loops carry/borrow/mult/LSL/mod_assign',U+'bigint.cpp'),('big_rat normalisation',U+'bigint.h')],
 [('register values','values of int and rat variables',I+'global.w')],['printed values'])
p('L07','Vectors, matrices, rows and strings: structural operations are exact',
 'Operations that build, convert, join, transpose, extend, stack, cut, compare or multiply rows, strings, integer vectors, rational vectors and matrices give exactly the mathematically defined entries and shape for every shape (including empty ones) and every combination of reversal, transposition and negation options; shape or index mismatches and entries that do not fit are reported as errors and never give a wrong value.',
 ['inputs'],'all shapes and entries, all option combinations of the general block-extraction function, all pairs of operand shapes',
 'Scripts use the operations in fixed patterns on non-empty operands of matching shape.',
 [I+'global.w',I+'axis.w',U+'matrix.cpp',U+'matrix.h',U+'ratvec.cpp'],
 [('matrix primitives',U+'matrix.cpp'),('swiss_matrix_knife and slices',I+'global.w'),('Rational_Vector normalize',U+'ratvec.cpp')],(),['printed values'])
p('L08','Integer linear algebra results satisfy their defining equations',
 'For every integer matrix, echelon form, diagonalisation, Smith form, adapted basis, kernel, eigenlattice, saturation, inverse, Bezout and linear solution results satisfy the equations and unimodularity, divisibility and completeness conditions that define them (for instance the solver returns a solution exactly when one over the integers with the reported denominator exists, and the kernel returned is the whole saturated kernel).',
 ['inputs'],'all integer matrices of all shapes including rank-deficient and empty ones',
 'Scripts call these on lattice matrices of root data only; the answers are not checked against the definitions.',
 [U+'matreduc.cpp',U+'matreduc.h',U+'matrix.cpp',I+'global.w'],
 [('column_echelon, diagonalise, adapted_basis',U+'matreduc.cpp')],(),['printed values'])
p('L09','Input files, comments and output redirection follow the stack discipline',
 'Commands are executed in exactly the order given by nested file inclusion; a single-angle include reads a file only if it has not been completely and successfully read before, a double-angle include always reads it, and a file already being read is never re-entered. An error abandons all open files at once, records none of the unfinished ones as read, and returns control to the top level input; redirected output of one command goes completely to the named file (overwriting or appending) and nothing else does.',
 ['histories','fault_sequences'],'all trees of include and redirect commands over finitely many files, with errors of every kind (missing file, syntax, type, runtime) at any point',
 'Tests feed each script once from standard input; re-inclusion, cyclic inclusion, errors in nested files and redirection never occur in passing tests.',
 [I+'buffer.w',I+'main.w',I+'lexer.w',I+'parser.y'],
 [('input_stack and input_files_seen/completed',I+'buffer.w'),('close_includes',I+'buffer.w')],
 [('input stack','files being read with line numbers',I+'buffer.w'),('completed files','set of names completely read',I+'buffer.w')],['output order of commands','contents of redirected files'])
p('G01','Root data: roots, coroots and duality are exact for every lattice',
 'For every reductive root datum the positive roots and coroots reported are exactly those generated by reflections from the simple ones, indexing, pairing, ladders, half sums, fundamental weights, root expressions and Lie type agree with their definitions, and taking the dual exchanges roots with coroots. Constructions from a Lie type and a sublattice, simply connected, adjoint, derived, modulo central torus and integrality data give the root datum determined by the definition.',
 ['inputs','configurations'],'all Lie types with all isogenies and central tori, all sublattices, all indices',
 'testrun and scripts build a limited list of groups and do not compare the individual accessors with the definitions.',
 [S+'rootdata.cpp',S+'rootdata.h',S+'prerootdata.cpp',S+'lietype.cpp',S+'dynkin.cpp',I+'atlas-types.w'],
 [('RootSystem constructor (ladder generation)',S+'rootdata.cpp'),('PreRootDatum quotient/dual',S+'prerootdata.cpp')],(),['values of root datum functions'])
p('G02','Weyl group elements form the reflection group with reduced normal forms',
 'Weyl group elements multiply, invert, compare and act on weights and coweights exactly as the group generated by the simple reflections; the length is the number of positive roots made negative, the word reported is a reduced expression depending only on the element, and decompositions of weights and orbit enumerations return each orbit element exactly once with an element of minimal length that maps the dominant representative to it.',
 ['inputs','histories'],'all root data, all elements, all words (reduced or not), all weights',
 'Selftests use the group only through higher constructions on small types; products across transducer pieces in large or non-numbered types, and elements from non-reduced words, are not sampled.',
 [S+'weyl.cpp',S+'weyl.h',S+'rootdata.cpp',I+'atlas-types.w'],
 [('transducer tables mult/shift',S+'weyl.cpp'),('Weyl orbit generation',S+'rootdata.cpp')],
 [('WeylElt pieces','normal form of an element',S+'weyl.h')],['word, length, products, actions'])
p('G03','Real forms and Cartan classes are the complete irredundant classification',
 'For every inner class, the Cartan classes correspond one to one to the conjugacy classes of twisted involutions, in an order compatible with their partial order, with class sizes, fibers, torus types and imaginary/real/complex root types determined by the involution; the real forms correspond one to one to the classes of strong involutions up to centre, and the occurrence and block size tables agree with the orbits counted on the fibers. Dualising exchanges real and dual real forms.',
 ['inputs','configurations'],'all inner classes: root datum of any isogeny type together with any distinguished involution, including tori and complex factors',
 'testrun checks a few identities for semisimple simply connected and adjoint types of rank at most 5; non-semisimple and intermediate isogeny inner classes are not classified independently.',
 [S+'innerclass.cpp',S+'cartanclass.cpp',S+'gradings.cpp',S+'tori.cpp',S+'realredgp.cpp',S+'involutions.cpp',I+'atlas-types.w'],
 [('InnerClass construction of Cartan classes',S+'innerclass.cpp'),('Fiber partitions',S+'cartanclass.cpp')],(),['Cartan class and real form tables'])
p('G04','The KGB graph is the orbit graph of strong involutions',
 'For every real form, the enumerated K\\G/B elements are exactly the elements reachable from the base strong involution by cross actions and Cayley transforms, each represented once; status, length, involution, torus bits, cross action, (inverse) Cayley transforms, twist and Hasse diagram of every element agree with conjugation and with the partial order defined by those operations. Converting an element to its torus factor and back is the identity.',
 ['inputs','configurations'],'all real forms of all inner classes and all their elements and generators',
 'Selftests use the graph only in aggregate on small simply connected groups; isogenies where torus components collapse, and disconnected K, are rarely reached.',
 [K+'kgb.cpp',K+'kgb.h',S+'tits.cpp',S+'tits.h',S+'y_values.cpp',K+'bruhat.cpp',I+'atlas-types.w'],
 [('TitsCoset cross/Cayley with normal form of torus part',S+'tits.cpp'),('KGB constructor',K+'kgb.cpp')],
 [('KGB state','twisted involution and torus part',K+'kgb.h')],['cross, Cayley, status, involution, torus_bits'])
p('G05','Blocks are fibre products closed under cross and Cayley, dual to each other',
 'A block for a pair of a real form and a dual real form has exactly one element for each pair of matching elements of the two orbit graphs; its cross action, single or double valued Cayley transforms, descent status and length are those induced by both factors, and the block of the dual pair is the same set with all arrows and statuses reversed. Blocks of parameters at arbitrary (also singular or non-integral) infinitesimal character are closed under cross actions and Cayley transforms for the integral simple reflections, and a partial block is exactly the set below its top element.',
 ['inputs','configurations'],'all pairs of real and dual real forms; all parameters with rational infinitesimal character',
 'Tests count block sizes for few pairs; non-integral and singular blocks and their duals are only used indirectly.',
 [K+'blocks.cpp',K+'blocks.h',K+'descents.h',K+'bruhat.cpp',K+'repr.cpp',I+'atlas-types.w'],
 [('Block::Block',K+'blocks.cpp'),('common_block constructors',K+'blocks.cpp')],(),['block, cross, Cayley, status, print_block'])
p('G06','Kazhdan-Lusztig-Vogan polynomials satisfy the characterising relations',
 'For every block the tabulated polynomials are the unique family that is unitriangular for the block order, obeys the strict degree bound, and satisfies the Hecke algebra recursion for every descent; coefficients are non-negative, dual-block polynomials are the inverse matrix up to sign, and full, partial, raw, primitive and printed forms all report the same polynomials.',
 ['inputs','configurations'],'all blocks, all pairs of elements',
 'Selftests look at blocks of few small groups at integral infinitesimal character and mostly check consistency of the program with itself.',
 [K+'kl.cpp',K+'kl.h',K+'klsupport.cpp',K+'blocks.cpp',I+'atlas-types.w','sources/io/kl_io.cpp'],
 [('KL_table::fill, recursion and thickets',K+'kl.cpp'),('primitivisation',K+'klsupport.cpp')],
 [('KL table','per column list of polynomial indices',K+'kl.h')],['KL_block, raw_KL, dual_KL, partial_KL_block'])
p('G07','W-graphs and cells are those of the polynomials, and represent the Weyl group',
 'The W-graph reported for a block has as vertex labels the descent sets and as edges the leading coefficients of the block polynomials at maximal degree together with the descent-changing links, it defines a representation of the Hecke algebra (quadratic and braid relations hold), the cells are exactly its strongly connected components with the induced graph, and strong components of any directed graph are found correctly with the induced order.',
 ['inputs','configurations'],'all blocks and all finite directed graphs',
 'test_braid runs on the principal block of groups of rank up to 4; edges and cells are not compared with the polynomials, and the graph algorithm only sees these graphs.',
 [K+'wgraph.cpp',K+'kl.cpp',U+'graph.cpp',I+'atlas-types.w'],
 [('W_graph construction',K+'wgraph.cpp'),('OrientedGraph::cells (Tarjan)',U+'graph.cpp')],(),['W_graph, W_cells, strong_components'])
p('G08','Parameters: normal forms decide equivalence and finality',
 'Two parameters are reported equivalent exactly when they are related by the complex cross actions and torus equivalences that preserve the standard module, normalising is idempotent, preserves equivalence, infinitesimal character orbit and height, and gives equal results for equivalent parameters; the standard, dominant, zero, semifinal and final predicates, and the expansion into final parameters, agree with their definitions by integral roots and parities.',
 ['inputs','histories'],'all parameters (x,lambda,nu) of all real forms, with singular, non-dominant and non-integral infinitesimal character, and all sequences of cross actions, Cayley transforms, scaling and twists applied to them',
 'Selftests only use parameters of trivial-type blocks at regular integral infinitesimal character.',
 [K+'repr.cpp',K+'repr.h',K+'standardrepk.cpp',S+'y_values.cpp',S+'subsystem.cpp',I+'atlas-types.w'],
 [('Rep_context::make_dominant/normalise/finals_for',K+'repr.cpp')],(),['param, %, dominant, normal, equivalent, is_*'])
p('G09','Virtual modules form a module over the split integers',
 'Formal sums of parameters and of K-types behave as finite functions from final parameters to split integers: adding, subtracting, scaling, coefficient selection and assignment, term counting, first/last term, truncation by height, comparison and iteration give exactly the result of the same operations on such functions, whatever the order in which terms were added, and never keep zero coefficients or non-final terms.',
 ['histories','inputs'],'all sequences of additions, subtractions, multiplications and coefficient assignments, including cancellation and large numbers of terms',
 'Tests use sums built in one pass; interleaved merging, cancellation and coefficient assignment are not compared with a reference.',
 [U+'free_abelian.h',U+'free_abelian_def.h',K+'repr.cpp',K+'K_repr.cpp',I+'atlas-types.w'],
 [('Free_Abelian_light heap-of-sequences add_term/merge','sources/utilities/free_abelian_def.h')],
 [('polynomial','map from final parameter to split coefficient',U+'free_abelian.h')],['#, [ ], +, -, *, first_term, last_term'])
p('G10','Results do not depend on what was computed before',
 'Every query about parameters, blocks, polynomials, cells, K-types, deformations and their twisted versions returns the same value whatever sequence of other queries was made earlier in the session: memoised blocks, polynomials and formulas are transparent, including partial blocks later absorbed into larger ones and blocks reused for other parameters in the same or a translated family. Queries for stored results return either nothing or the value that a fresh computation gives.',
 ['histories'],'all sequences of queries on all parameters of a real form within one session, with repeated, overlapping and interrupted computations',
 'Every test starts a fresh session and asks a fixed sequence of questions; the property is about all orders.',
 [K+'repr.cpp',K+'repr.h',K+'blocks.cpp',K+'kl.cpp',K+'ext_kl.cpp',K+'K_repr.cpp',I+'atlas-types.w'],
 [('Rep_table::lookup/add_block/append_block_containing swallow',K+'repr.cpp'),('block_modifier',K+'repr.cpp'),('deformation unit table',K+'repr.cpp')],
 [('block_list/place','stored blocks and for each reduced parameter its location',K+'repr.h'),('pool/alcove_hash','stored deformation formulas',K+'repr.h'),('KTF_table','stored K-type formulas with cutoff height',K+'repr.h')],['all Param and KType query functions'])
p('G11','Deformation and signature formulas follow from the polynomials',
 'Deforming a parameter to a smaller continuous parameter, one step or completely to zero, yields the combination determined by the block polynomials, orientation numbers and reducibility points; the value of the signature sum of an irreducible is the alternating polynomial sum at s, height-limited versions are the truncations of the unlimited ones, and the reducibility points returned are exactly the rationals in (0,1] where the standard module family becomes reducible.',
 ['inputs'],'all final parameters with rational continuous parameter',
 'hodge_test and unipotent tests check complete computations for a few special representations; individual formulas are not recomputed.',
 [K+'repr.cpp',K+'repr.h',I+'atlas-types.w'],
 [('deformation_terms',K+'repr.cpp'),('reducibility_points',K+'repr.cpp'),('orientation_number',K+'repr.cpp')],(),['deform, full_deform, KL_sum_at_s, orientation_nr, reducibility_points'])
p('G12','K-type formulas and branching agree with standard restriction',
 'K-types have normal forms that decide equivalence and finality, a standard K-representation branches into final K-types with the multiplicities determined by inverting the K-type formulas, results limited to a height are exactly the part of the unlimited result up to that height whatever limits were used before, and conversions between parameters and K-types commute with restriction to K.',
 ['inputs','histories'],'all K-types of all real forms and all height limits in any order',
 'test_K_types_plus covers lowest K-types of small blocks only, with one height limit at a time.',
 [K+'K_repr.cpp',K+'K_repr.h',K+'standardrepk.cpp',K+'repr.cpp',I+'atlas-types.w'],
 [('K_type_formula with cutoff and memo',K+'K_repr.cpp / repr.cpp'),('branch',K+'repr.cpp')],(),['K_type, branch, K_type_formula, KGP_sum'])
p('G13','Twisted (extended group) computations reduce correctly to untwisted ones',
 'Extended blocks consist of exactly the twist-fixed elements of the ordinary block with link types determined by the orbit of the generator; twisted polynomials agree with the ordinary ones modulo 2 and coefficient-wise bounded by them, coincide with them when the twist acts trivially, and twisting is an involution that commutes with all operations on parameters.',
 ['inputs','configurations'],'all blocks fixed by the distinguished or another commuting involution',
 'test_KL covers the trivial block of rank-3 groups with the distinguished involution only.',
 [K+'ext_block.cpp',K+'ext_block.h',K+'ext_kl.cpp',K+'repr.cpp',I+'atlas-types.w'],
 [('ext_block links and sign flips',K+'ext_block.cpp'),('ext_kl recursion',K+'ext_kl.cpp')],(),['extended_block, partial_extended_KL_block, twist, twisted_*'])
p('G14','Integrality, alcove and orbit computations are exact for every weight',
 'For every rational weight the integral subsystem, its simple roots, integral dominance, reducibility hyperplanes, alcove walls and the alcove-centre replacement agree with their definitions by pairings with coroots, and enumerations of orbits (finite, parabolic, affine) and of fundamental parallelepiped points list every element exactly once.',
 ['inputs'],'all root data and rational weights, including those on walls and for subsystems of smaller rank',
 'Only a few special infinitesimal characters occur in tests.',
 [S+'alcoves.cpp',S+'rootdata.cpp',S+'subsystem.cpp',I+'atlas-types.w'],
 [('walls / alcove functions',S+'alcoves.cpp'),('integrality_simples',S+'rootdata.cpp')],(),['walls, integrality_*, Weyl_orbit*, FPP_*'])
p('F01','The Fokko program moves between modes as a stack and keeps data consistent',
 'In the interactive program, commands available, unique abbreviations, mode entry and exit, and help follow a fixed mode hierarchy; leaving a mode discards its data, re-selecting a group, real form, dual real form or representation replaces all data that depend on it, aborting a dialogue leaves the previous state intact, and the output of every query command depends only on the currently selected group, real forms and parameter.',
 ['histories','inputs'],'all sequences of commands (valid, abbreviated, ambiguous or unknown) and dialogue answers (valid, invalid, aborted)',
 'The only Fokko test is the non-interactive testrun command.',
 ['sources/interface/commands.cpp','sources/interface/emptymode.cpp','sources/interface/mainmode.cpp','sources/interface/realmode.cpp','sources/interface/blockmode.cpp','sources/interface/reprmode.cpp','sources/interface/helpmode.cpp','sources/io/interactive.cpp'],
 [('CommandTree run / exitMode / drop_to','sources/interface/commands.cpp'),('mode entry/exit functions','sources/interface/*mode.cpp')],
 [('modeStack','active command modes','sources/interface/commands.cpp'),('static pointers to current group, real form, block','data of each mode','sources/interface/*mode.cpp')],['prompt, output of commands'])
p('F02','Both programs and all output channels report the same objects',
 'For the same group, forms and block, the tables printed by the interactive program, the tables printed by the interpreter and the values returned by the interpreter functions describe the same orbit graph, block, polynomials, order and cells; the binary block and polynomial files written can be read back and contain exactly the same block and polynomials, and graph extraction from them gives the same W-graph.',
 ['inputs','configurations'],'all groups, real form pairs and output commands',
 'No test looks at printed tables or binary files.',
 ['sources/io/filekl.w','sources/io/block_io.cpp','sources/io/kgb_io.cpp','sources/io/kl_io.cpp','sources/io/wgraph_io.cpp','sources/io/output.cpp','sources/interface/blockmode.cpp'],
 [('write_block_file/write_KL_matrix/write_KL_store','sources/io/filekl.w'),('print_block, print_KGB','sources/io')],(),['printed tables','binary files'])
p('U01','Library containers behave as the sets, lists, tables and maps they represent',
 'Bit maps, bit sets, linked lists, hash tables, partitions, permutations and pre-orders give after every sequence of operations exactly the contents, order, size and iteration sequence of the mathematical set, sequence, injective numbering, partition, permutation or order they represent, for every capacity and position including word boundaries and empty ones.',
 ['histories','inputs'],'all sequences of public operations on the containers, all sizes',
 'There are no unit tests of the library; programs only reach typical call patterns.',
 [U+'bitmap.cpp',U+'bitmap.h',U+'bitset.h',U+'bitset.cpp',U+'sl_list.h',U+'hashtable.h',U+'hashtable_def.h',U+'partition.cpp',U+'partition_def.h',U+'permutations.cpp',U+'poset.cpp',U+'bits.cpp'],
 [('word-wise bitmap operations',U+'bitmap.cpp'),('list splicing and end-link maintenance',U+'sl_list.h'),('open hashing with rehash',U+'hashtable_def.h')],
 [('container contents','abstract value of the container',U)],['public member functions'])
p('U02','Polynomial arithmetic is exact or reports overflow',
 'Polynomial sums, differences, products, shifts, evaluations and exact divisions used for the Kazhdan-Lusztig computations give the exact coefficients with leading zeros removed, and when a coefficient would leave the range of the coefficient type or become negative where only natural numbers are allowed, an error is reported in place of a wrong result and the operands keep valid values.',
 ['inputs','histories'],'all polynomials of all degrees with all coefficients up to the type limits, all operation sequences',
 'Overflow never happens in tests, and operations on non-monic shapes or cancellation of leading terms occur only incidentally.',
 [U+'polynomials.h',U+'polynomials_def.h',U+'size.cpp',U+'arithmetic.cpp'],
 [('Safe_Poly safeAdd/safeSubtract/safeProd',U+'polynomials_def.h')],(),['public member functions'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
assert all(len(q['title'])<=80 for q in P),[q['id'] for q in P if len(q['title'])>80]
print(len(P))
