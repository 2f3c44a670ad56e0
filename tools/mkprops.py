#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept in one place so that it stays in step)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)))


p("P01", "A parameter set stays consistent under every history of changes",
  "After any sequence of adding, re-adding, adding-or-getting, aliasing, renaming, removing, copying values between sets and resetting, every member of a parameter set is listed exactly once in the order it was added, its current name (and no other) leads to it by every lookup route, and unknown or removed names lead to nothing. "
  "An operation that is refused (name taken, object not a member, rename onto an existing name) reports failure and changes nothing. Resetting or copying values touches exactly the members concerned.",
  ["histories"], "all finite histories of set operations over any names and parameter objects",
  "the unit tests build a few sets once and never remove, rename or collide names; consistency is a statement about every interleaving of these operations",
  ["src/MinuitParameterSet.cpp", "AmpGen/MinuitParameterSet.h", "src/MinuitExpression.cpp"],
  [("list plus name index kept in step by every mutator", "src/MinuitParameterSet.cpp: addToEnd, unregister, rename")],
  ["MinuitParameterSet iteration, find, at, [], size"])
p("P02", "Parameter values, errors, limits, flags and blinding follow their life cycle",
  "Along any history of value updates, start-value changes, step scaling, limit changes, fit results, fixing, freeing and resetting, a parameter reports exactly the value, start value, step, limits, errors and flag that history implies, and aliases always report the current value of what they are defined from. "
  "Minimiser variables reach exactly the parameters they are mapped to. The printed form of a blinded parameter never depends on its value, the printed form of any other does, and hidden parameters are left out of the short listing.",
  ["histories"], "all finite histories of the mutators of one or several parameters, all flags",
  "no existing test exercises resets, fit results, minimiser mapping or blinding at all",
  ["src/MinuitParameter.cpp", "AmpGen/MinuitParameter.h", "src/MinuitParameterSet.cpp", "src/MinuitExpression.cpp"],
  [("mutators and reset", "src/MinuitParameter.cpp"), ("stream operator hides blind values", "src/MinuitParameter.cpp operator<<"), ("minimiser mapping", "src/MinuitParameterSet.cpp setMapping/setFromMinuit")],
  ["MinuitParameter accessors", "print/printVariable output"])
p("P03", "Options come out as the files, imports and command line say",
  "For any arrangement of option files (comments, blank lines, multi-line brace blocks, quoted words, nested imports) and command-line arguments, every key ends up with exactly the tokens of its last definition, later sources overriding earlier ones, and the ordered listing holds each surviving definition once. "
  "Typed look-ups return the converted values of an option where it is given (scalars, numbered elements, lists, booleans, enumerations, strings) and the stated default where it is not.",
  ["inputs", "configurations", "histories"], "all option files, import trees, command lines and look-up sequences",
  "the tests look up a few literal options from one command line; quoting, imports, overrides and their interaction are unbounded",
  ["src/OptionsParser.cpp", "AmpGen/OptionsParser.h", "src/NamedParameter.cpp", "AmpGen/NamedParameter.h", "AmpGen/Utilities.h"],
  [("line splitting, brace collection, import", "src/OptionsParser.cpp setCommandLineArgs/import/addArg"), ("typed conversion", "AmpGen/NamedParameter.h")],
  ["OptionsParser iteration and getInputOrdered", "NamedParameter values"])
p("P04", "Parameter files load to the parameters they describe",
  "Loading options turns every well-formed real (name flag value step [min max]) or complex (two such groups, giving a real and an imaginary part) line into exactly the described parameters, every 'name = expression' line into a live alias, and ignores lines that are neither. "
  "A mass, width or radius given for a particle also governs the antiparticle unless that is given explicitly. Aliases may be written before the parameters they use, and may use aliases defined before them; the order of the definitions does not change the parameters.",
  ["inputs", "configurations"], "all parameter files over any names, flags, numbers and expressions",
  "the tests load no parameter file with limits, complex entries, malformed lines or antiparticle defaults",
  ["src/MinuitParameterSet.cpp", "src/MinuitExpression.cpp", "src/ExpressionParser.cpp"],
  [("token-count dispatch", "src/MinuitParameterSet.cpp tryParameter"), ("antiparticle defaults", "src/MinuitParameterSet.cpp loadFromStream")],
  ["parameter set after loading"])
p("P05", "Expression strings evaluate with the documented precedence and stay live",
  "Any well-formed expression string evaluates to its mathematical value: brackets first, then named functions, powers, division, multiplication, subtraction, addition, comparison and logic, with numbers, the imaginary unit, pi and parameters (real or complex pairs) as operands. "
  "Expressions that mention parameters always reflect the parameters' current values, and the result does not depend on spacing between tokens.",
  ["inputs", "histories"], "all expression strings of the grammar and all later parameter changes",
  "the tests parse about ten literals and cannot cover precedence and associativity combinations or later parameter changes",
  ["src/ExpressionParser.cpp", "AmpGen/ExpressionParser.h", "src/MinuitExpression.cpp"],
  [("recursive splitting by operator precedence", "src/ExpressionParser.cpp processBinaryOperators/processUnaryOperators")],
  ["value of a parsed expression"])
p("P06", "Symbolic algebra preserves values",
  "Building an expression with the overloaded operators and functions, and any later normal form, expansion or simplification of it, gives the value that the same operations give on ordinary complex numbers, whatever constants and parameters it is made of. "
  "Constant folding and the 0 and 1 shortcuts never change a value (constants below double-precision epsilon count as zero), and a symbolic derivative equals the derivative of the function wherever that is analytic.",
  ["programs", "inputs"], "all expression trees over the supported operators, all values of their leaves",
  "the tests evaluate a handful of small fixed trees; rewriting rules interact over all trees",
  ["src/Expression.cpp", "src/BinaryExpression.cpp", "src/UnaryExpression.cpp", "src/Simplify.cpp", "AmpGen/Expression.h"],
  [("operator shortcuts and folding", "src/Expression.cpp, src/BinaryExpression.cpp"), ("expansion to sums of products", "src/Simplify.cpp"), ("derivatives", "src/UnaryExpression.cpp, src/BinaryExpression.cpp")],
  ["Expression::operator()"])
p("P07", "Compiled code computes what the expression means",
  "For every expression and every input event, parameter and cached sub-expression assignment, the just-in-time compiled function returns the value that direct evaluation of the expression gives, one event at a time, several at a time in vector lanes, or over a whole batch. "
  "Sharing of common sub-expressions and the placement of parameters and cached values never changes a result.",
  ["programs", "inputs"], "all expressions compiled alone or together, all inputs",
  "the tests compile a few fixed expressions; sharing, ordering and address assignment depend on the whole expression",
  ["src/CompiledExpressionBase.cpp", "AmpGen/CompiledExpression.h", "src/ASTResolver.cpp", "src/CompilerWrapper.cpp", "src/CacheTransfer.cpp"],
  [("sub-expression discovery and ordering", "src/ASTResolver.cpp, src/CompiledExpressionBase.cpp"), ("parameter slots", "src/CacheTransfer.cpp")],
  ["CompiledExpression call results"])
p("P08", "Compiled functions always use the current parameters and say when they changed",
  "After any history of parameter changes, parameter transfers and evaluations, a compiled function evaluates with the parameter values of its last transfer, and it reports a change exactly when a transfer since the last acknowledgement (the reset of its externals) brought a new value of something it depends on. "
  "Shared parameters, expressions of parameters, functions used as parameters and copies of the compiled function follow the same rule; constants and parameters built into the generated code have exactly their values.",
  ["histories"], "all histories of parameter updates, transfers, flag queries and evaluations over any set of compiled functions",
  "the tests never change a parameter after compiling",
  ["src/CacheTransfer.cpp", "src/CompiledExpressionBase.cpp", "AmpGen/CompiledExpression.h", "src/ASTResolver.cpp"],
  [("parameter transfer list", "src/CacheTransfer.cpp"), ("externals buffer and hash", "AmpGen/CompiledExpression.h")],
  ["CompiledExpression values, prepare, hasChanged-style queries"])
p("P09", "Decay descriptors round-trip and have one canonical form",
  "Every valid decay descriptor parses to the decay tree it spells, and printing the parsed decay gives a descriptor that parses to an equal decay. "
  "Descriptors that differ only in the order in which daughters are written describe equal decays with one printed form, and different decays never compare equal.",
  ["inputs"], "all descriptors of the grammar: any nesting, modifiers, daughter order",
  "the tests parse about a dozen descriptors; canonical order must be the same for every permutation of every tree",
  ["src/Particle.cpp", "AmpGen/Particle.h", "src/Utilities.cpp"],
  [("descriptor parser", "src/Particle.cpp constructor, getItems"), ("daughter sorting", "src/Particle.cpp sortDaughters")],
  ["Particle::decayDescriptor, equality, uniqueString"])
p("P10", "CP conjugation is an involution that conjugates every particle",
  "Conjugating a decay replaces every particle, at every level, by its antiparticle and keeps the topology, line shapes and quantum numbers; doing it twice gives back the original decay. "
  "Adding CP-conjugate amplitudes to a model doubles it with exactly the conjugates, with couplings related as requested.",
  ["inputs", "configurations"], "all decay trees and all models built from them",
  "the tests conjugate a couple of decays; the property quantifies over every tree and every particle",
  ["src/Particle.cpp", "src/AddCPConjugate.cpp", "src/ParticlePropertiesList.cpp"],
  [("recursive conjugation", "src/Particle.cpp conj/conjThis"), ("model doubling", "src/AddCPConjugate.cpp")],
  ["Particle::conj", "parameter set and rules after AddCPConjugate"])
p("P11", "Identical final-state particles are exchanged completely and exactly once",
  "For any decay the set of orderings used to symmetrise identical final-state particles is exactly the set of distinct exchanges of identical particles, each assigned once. "
  "The sign given to a permutation of fermions is the parity of that permutation.",
  ["inputs"], "all decay trees with any multiset of final-state particles, all permutations",
  "the tests use one or two fixed decays and no fermion exchange",
  ["src/Particle.cpp", "src/Utilities.cpp", "AmpGen/Utilities.h"],
  [("ordering enumeration", "src/Particle.cpp identicalDaughterOrderings"), ("parity", "AmpGen/Utilities.h minSwaps, src/Particle.cpp exchangeParities")],
  ["Particle::identicalDaughterOrderings, getExpression terms"])
p("P12", "Amplitude rules expand to every matching cascade once, with the right coupling",
  "The amplitudes used for a final state are exactly the complete cascades obtained by substituting declared sub-decays into decays that start at the head particle and end in the requested final state, each once. "
  "The coupling of an expanded amplitude is the product of the couplings of the rules used, with Cartesian or polar and coherent sub-rule conventions as declared, and follows later parameter changes.",
  ["inputs", "configurations", "histories"], "all rule sets and final states",
  "the tests expand one model with a fixed set of rules",
  ["src/AmplitudeRules.cpp", "AmpGen/AmplitudeRules.h"],
  [("rule table and expansion", "src/AmplitudeRules.cpp getMatchingRules/expand"), ("coupling product", "src/AmplitudeRules.cpp TotalCoupling")],
  ["getMatchingRules", "TotalCoupling value"])
p("P13", "Particle database look-ups and quark content are consistent",
  "Every particle in the database is found by its name and by its number, antiparticles pair up with opposite charge, opposite number and conjugated quark content, aliases and added particles follow the same rules, and unknown names are reported as unknown. "
  "Quark-flavour comparisons accept a decay exactly when its flavours are conserved, for any particle whose content is ambiguous as well.",
  ["inputs", "histories"], "all database entries, alias and add histories, and particle combinations",
  "the tests look up a few names; the pairing must hold for every entry and every added particle",
  ["src/ParticlePropertiesList.cpp", "src/ParticleProperties.cpp", "src/QuarkContent.cpp"],
  [("name and number maps", "src/ParticlePropertiesList.cpp"), ("antiparticle construction", "src/ParticleProperties.cpp antiThis"), ("quark algebra", "src/QuarkContent.cpp")],
  ["ParticlePropertiesList::get, ParticleProperties accessors"])
p("P14", "Angular momentum algebra is exact",
  "The orbital and spin couplings offered for a decay are exactly those allowed by angular-momentum addition and, where required, parity conservation. "
  "Clebsch-Gordan coefficients and reduced rotation elements equal their exact values for every argument, vanish outside their selection rules and satisfy orthogonality.",
  ["inputs"], "all spins, projections and parities",
  "no stable test covers coupling tables or rotation elements",
  ["src/Wigner.cpp", "src/Particle.cpp", "AmpGen/Wigner.h"],
  [("coupling enumeration", "src/Particle.cpp spinOrbitCouplings"), ("coefficients", "src/Wigner.cpp")],
  ["CG, wigner_d, Particle::spinOrbitCouplings"])
p("P15", "Tensor index calculus follows the Einstein convention",
  "Indexed tensor expressions (outer products, contractions over repeated indices with the Minkowski metric, sums, permuted assignment, symmetric storage) equal the explicit component sums for every rank, index pattern and component value, independent of the index labels chosen.",
  ["programs", "inputs"], "all tensors of any rank and all index patterns",
  "the tests multiply two fixed matrices and invert two",
  ["src/Tensor.cpp", "AmpGen/Tensor.h"],
  [("index matching and contraction", "src/Tensor.cpp operator*, TensorProxy")],
  ["Tensor components"])
p("P16", "Sequences of Lorentz transformations compose, invert and keep the metric",
  "Applying a sequence of rotations and boosts to a vector equals applying them one after another, the inverse sequence undoes it, and appending sequences equals composition, in either direction convention and for spinors as well as vectors. "
  "Lengths of four-vectors never change under them.",
  ["programs", "histories"], "all sequences of elementary transformations, inverses and appends",
  "no stable test covers transformation sequences",
  ["src/Transform.cpp", "AmpGen/Transform.h"],
  [("sequence application and cached product", "src/Transform.cpp TransformSequence")],
  ["TransformSequence applied to vectors"])
p("P17", "Event records and lists keep every event's data and weights",
  "Through any history of appending, copying, cache resizing and storing, weight changes, filtering, reordering and conversion between scalar and vectorised lists, each event keeps exactly its kinematics, weight, generator weight and cached values, and sums over a list equal sums over its events. "
  "Event invariants computed from a record equal those of its four-vectors for every particle subset. "
  "An event type lays out every field exactly once, and particles that arrive with identifiers in any order are put in the order of the type exactly when they are those of the type or of its conjugate.",
  ["histories", "inputs"], "all histories of list operations, all list sizes including ones that do not fill a vector register",
  "no stable test touches event lists",
  ["AmpGen/Event.h", "src/Event.cpp", "src/EventList.cpp", "AmpGen/EventList.h", "src/EventListSIMD.cpp", "AmpGen/EventListSIMD.h", "AmpGen/Store.h", "src/EventType.cpp"],
  [("flat buffers with index arithmetic", "AmpGen/Store.h, src/Event.cpp"), ("lane packing and padding", "src/EventListSIMD.cpp")],
  ["EventList and EventListSIMD accessors"])
p("P18", "Amplitude-model predictions never depend on stale caches",
  "After any history of setting events, changing parameters, preparing and resetting, the amplitude, probability and normalisation a model reports equal those of a freshly built model with the same parameters and events. "
  "Per-event results do not depend on which other events are present, and normalised fractions sum consistently. The integral of a pair of amplitudes is the conjugate of that of the pair in the other order, and the penalties built on a model (on the partial width outside a given value, on the sum of the square roots of the fractions) are those of its current integrals.",
  ["histories"], "all histories of event changes, parameter changes and preparations",
  "the existing coherent-sum test is not part of the stable set and prepares once",
  ["src/CoherentSum.cpp", "AmpGen/CoherentSum.h", "src/Integrator.cpp", "AmpGen/Integrator.h", "src/MatrixElement.cpp", "AmpGen/Store.h"],
  [("change detection and partial re-evaluation", "src/CoherentSum.cpp prepare/updateNorms"), ("bilinear cache", "src/Integrator.cpp")],
  ["CoherentSum::getValNoCache, prob, norm"])
p("P19", "The thread pool runs every task exactly once and always terminates",
  "Under every schedule, each task given to the pool is executed exactly once, its future delivers its result or its exception, waiting for completion returns only when all tasks given before have finished and always returns, and destroying the pool runs what is queued and joins every worker. Tasks run concurrently on up to the given number of workers. "
  "With threading disabled tasks run immediately in the caller with the same results, and submitting to a stopped pool is refused.",
  ["schedules", "histories"], "all thread schedules and client programs",
  "no test uses the pool; races and lost wake-ups depend on the schedule",
  ["src/ThreadPool.cpp", "AmpGen/ThreadPool.h"],
  [("mutex-protected queue with condition variable", "src/ThreadPool.cpp, AmpGen/ThreadPool.h")],
  ["futures, task side effects, destructor"])
p("P20", "Text and combinatorial utilities satisfy their contracts for every input",
  "Splitting, joining, trimming, replacing, wildcard matching, bracket matching, numeric parsing, permutation and combination generators, product loops, enumeration parsing, and parallel sorting give the results their definitions state for every input, including empty and repeated ones. "
  "Joining the fields a split keeps gives back the text, replacing always terminates and leaves the rest of the text unchanged, and sorting returns a sorted permutation of its input.",
  ["inputs"], "all strings, delimiters, patterns, sizes and element values",
  "the tests check a handful of literals",
  ["src/Utilities.cpp", "AmpGen/Utilities.h", "AmpGen/MetaUtils.h", "AmpGen/enum.h"],
  [("string scanning helpers", "src/Utilities.cpp"), ("nCr, permutations, parallel sort", "AmpGen/Utilities.h, src/Utilities.cpp")],
  ["return values"])
p("P21", "Vectorised arithmetic equals scalar arithmetic lane by lane",
  "Every vector operation (arithmetic, comparison, selection, logic, rounding, modulus, gather, elementary functions, and the complex versions of these) gives in each lane what the corresponding scalar operation gives for that lane's operands. "
  "No lane influences another.",
  ["inputs"], "all operand values in all lanes, all operations",
  "the tests check about six operations on one or two operand vectors",
  ["AmpGen/simd/avx2d_types.h", "AmpGen/simd/utils.h", "AmpGen/simd/avx_types.h", "AmpGen/Complex.h"],
  [("operator overloads on register types", "AmpGen/simd/avx2d_types.h")],
  ["lane values of results"])
p("P22", "Interpolation, accumulation and barrier helpers are exact where they must be",
  "Compiled cubic splines pass through every knot, first and last included, are the natural spline between them with continuous slope, reproduce straight lines, and continue with the last value above their range, for the knot values of the last preparation and in scalar and vectorised code alike. "
  "Compensated summation of any series in any order, by scalars or vectors, gives the exact sum rounded once in the code as built. "
  "Barrier factors follow the spherical Hankel functions, are one at the reference point for every angular momentum up to four, and break-up momenta, form-factor ratios and running widths built from them follow their definitions at, above and below threshold.",
  ["inputs", "histories"], "all knot sets, series and orders, all supported angular momenta, masses and radii",
  "no stable test covers splines, compensated sums or barrier factors",
  ["src/Spline.cpp", "AmpGen/Spline.h", "AmpGen/KahanSum.h", "src/Lineshapes.cpp", "src/Array.cpp", "src/Lineshapes/SplineShapes.cpp"],
  [("tridiagonal solve and transfer", "src/Spline.cpp"), ("compensation term", "AmpGen/KahanSum.h"), ("Blatt-Weisskopf polynomials, Q2, width", "src/Lineshapes.cpp")],
  ["Spline values, KahanSum value, barrier factors, running widths"])
p("P23", "Event generation samples exactly the requested density",
  "For any model, phase-space generator, efficiency and sequence of random numbers, generating N events delivers exactly N events in every scalar or vectorised list, whatever it contained before; an event is accepted exactly when its random number times the ceiling is below its density, the ceiling bounds every density seen in its block, "
  "and each kept event carries its kinematics and the density it was generated with. "
  "Discrete choices follow their weights for every draw. Every event from every phase-space generator conserves four-momentum and has its daughters on their mass shells, and sequential generation over several decay chains accepts with one ceiling common to all chains.",
  ["inputs", "histories"], "all random sequences, models, target counts, block sizes and earlier list contents",
  "no stable test generates weighted or unweighted samples",
  ["AmpGen/Generator.h", "src/Generator.cpp", "src/PhaseSpace.cpp", "src/TreePhaseSpace.cpp", "AmpGen/TreePhaseSpace.h", "src/RecursivePhaseSpace.cpp", "src/DiscreteDistribution.cpp"],
  [("accept-reject loop", "AmpGen/Generator.h fillEventListPhaseSpace/fillEventsUsingLambda"), ("mixture over chains", "src/TreePhaseSpace.cpp"), ("discrete sampling", "src/DiscreteDistribution.cpp")],
  ["generated lists", "discrete draws", "four-momenta"])
p("P24", "Spin couplings are covariant, linear and deliver states of the right spin",
  "For every spin-orbit coupling of every supported combination of mother and daughter spins, fermions and antifermions included, and for all momenta and daughter states, the coupled amplitude is the defined covariant contraction: linear in the spin tensor of each daughter (scalars included), equal in every frame and orientation, "
  "and a state of the mother's spin (transverse, symmetric, traceless, obeying the Dirac equation of a particle or antiparticle, as its spin requires). "
  "Spin projectors are idempotent and orbital tensors transverse. The external states of vectors, photons and fermions in either basis are the normalised polarisation states of the requested helicity for every momentum, along the negative axis and at rest too.",
  ["inputs"], "all momenta, spin tensors, couplings, polarisations and spin bases",
  "no stable test evaluates a coupling or an external spin state",
  ["src/Vertex.cpp", "src/FermionVertices.cpp", "src/DiracMatrices.cpp", "src/Particle.cpp", "AmpGen/Vertex.h"],
  [("couplings", "src/Vertex.cpp DEFINE_VERTEX"), ("fermion couplings", "src/FermionVertices.cpp"), ("external states", "src/Particle.cpp externalSpinTensor"), ("gamma matrices", "src/DiracMatrices.cpp")],
  ["components of coupled spin tensors, of projectors and of external states"])
p("P25", "A decay's amplitude is its line shapes times its coupled spins",
  "For every decay the library accepts, every event and every choice of external polarisations, the amplitude is the product of the line shapes of its steps (evaluated at that step's own invariant masses and orbital angular momentum) and of the spin factor that couples the external states through the decay tree, "
  "summed over all exchanges of identical final-state particles (momentum and polarisation exchanged together), with a sign for an odd exchange of fermions, and normalised by the square root of the number of exchanges. So exchanging identical particles in the event changes at most the sign. "
  "NoSym leaves out the exchanges, Inco sums squared magnitudes, BgSpin0 leaves out the spin factor. "
  "In the canonical formalism the amplitude has the angular distribution its spins and L, S imply, for every direction of flight (the axes included), and given helicity couplings weight the helicity states they name.",
  ["inputs"], "all events, decays, polarisations, modifiers and the formalisms",
  "no stable test evaluates the amplitude of a decay with spin, identical particles or in the canonical formalism",
  ["src/Particle.cpp", "src/Wigner.cpp", "src/Vertex.cpp", "src/Lineshapes.cpp"],
  [("sum over exchanges", "src/Particle.cpp Particle::getExpression, identicalDaughterOrderings"), ("product of line shapes", "src/Particle.cpp Particle::propagator"), ("spin factor", "src/Particle.cpp Particle::spinTensor, P, Q"), ("canonical formalism", "src/Wigner.cpp helicityAmplitude, wickTransform, calculate_recoupling_constants")],
  ["compiled amplitude of a decay at an event"])
p("P26", "Boosts, rotations and angles of events are those of special relativity",
  "For every event, boosting along an axis, rotating about an axis or changing to a basis transforms the momenta of all its particles by exactly the Lorentz transformation named (the axis need not be normalised) and touches nothing else in the event. "
  "Helicity cosines, momentum transfers, acoplanarity and the angle between two decay planes have the values they have in the rest frame they are defined in; therefore they, and every invariant mass, are unchanged by any sequence of boosts and rotations, and only the sign of the plane angle changes with the handedness of the basis.",
  ["inputs", "histories"], "all events, all axes, velocities and angles, all sequences of transformations",
  "no stable test transforms an event and looks at all its momenta and angles",
  ["src/Kinematics.cpp", "AmpGen/Kinematics.h", "src/Event.cpp"],
  [("transformations", "src/Kinematics.cpp boost, rotate, rotateBasis"), ("angles", "src/Kinematics.cpp HelicityCosine, acoplanarity, phi, PHI, dotProduct"), ("momentum transfer", "src/Kinematics.cpp MomentumTransfer")],
  ["momenta of the event and the value of each angle after each transformation"])
p("P27", "An adaptive binning puts every event in exactly one well-filled bin",
  "For every sample, dimension, minimum occupancy and depth limit, the binning splits the sample at its midpoint along one coordinate after another (the given order while events are plenty, then by largest spread), so that no bin holds fewer than the minimum number of events and bins stay divisible only where the depth limit stopped; bins are numbered 0 to size()-1 without gaps. "
  "Whichever way the sample is given (coordinates, events, event lists, argument packs), the same events give the same bins; a binning written to a file and read back, into a new or a used object, puts every point in the same bin with the same label. "
  "The chi-squared between a weighted sample and a weighted simulation is the sum over these bins of the squared difference over the summed squared weights, with the simulation scaled to the sample.",
  ["inputs", "histories"], "all samples, limits and ways of construction; all orders of labelling, writing and reading",
  "the library's tests never build a binning (the code is left out of the test build)",
  ["src/BinDT.cpp", "AmpGen/BinDT.h", "src/Chi2Estimator.cpp", "AmpGen/Chi2Estimator.h"],
  [("splitting", "src/BinDT.cpp makeNodes, splitEvents, refreshQueue"), ("lookup", "src/BinDT.cpp Decision::operator(), getBinNumber, getBin"), ("files", "src/BinDT.cpp serialize, readFromStream"), ("chi-squared", "src/Chi2Estimator.cpp doChi2")],
  ["bin number and label of any point", "number of bins", "chi-squared"])
p("P28", "A line shape is its documented function of masses and parameters",
  "For every mass of a resonance and of its decay products, above and below threshold, every orbital angular momentum and every value of the parameters, each registered line shape evaluates to the function it is documented to be: Breit-Wigner (with barrier factors and running width), Gounaris-Sakurai, Flatte, LASS and its generalisation, Bugg, the K-matrix families with their production vectors, coupled channels and their phase spaces, form factors, polynomials, Gaussians and splines at their knots. "
  "Parameters that the fit does not define take their documented defaults from the particle table; changing a parameter afterwards changes the value accordingly; and a line shape asked for a decay in an event takes its invariant masses from the momenta of that decay's final state.",
  ["inputs"], "all masses, angular momenta, parameter values, shapes and modifiers",
  "the tests evaluate no line shape against a formula",
  ["src/Lineshapes.cpp", "src/Lineshapes/*.cpp", "AmpGen/Lineshapes.h", "AmpGen/kMatrix.h", "src/Pade.cpp"],
  [("barriers and widths", "src/Lineshapes.cpp Q2, BlattWeisskopf, BlattWeisskopf_Norm, kFactor, width"), ("shapes", "src/Lineshapes/*.cpp"), ("K matrices", "src/Lineshapes/kMatrix.cpp constructKMatrix, getPropagator"), ("phase space", "src/Lineshapes/CoupledChannel.cpp phaseSpace")],
  ["value of the compiled line shape at any mass and parameter setting"])
p("P29", "A fit moves only its free parameters, and its outcome is kept and saved",
  "For every parameter set, fitted function, sequence of fits, constraints, changes of flags and values, and every way the minimisation package may behave (any points evaluated, any final point, errors, covariance and status), the minimiser varies exactly the free and blind parameters with their start values, steps and limits; the minimised value is the function at those values plus the constraint terms (less the start value when normalised); afterwards each varied parameter has its fitted value and errors and all others are untouched, scans and asymmetric errors leave the values where they were, and the covariance matrices refer to the right parameters. "
  "A fit result made from the minimiser, from a covariance matrix or as a copy reports these parameters, covariances and correlations by name and position, the reduced covariance of the floating parameters, and its annotations; writing it to a file and reading it back, or writing it as options and loading those, with or without a template, gives back the same parameters with values, errors, flags and limits, and every line of the template that is not a parameter.",
  ["inputs", "histories"], "all parameter sets, functions, outcomes of the minimiser and sequences of operations",
  "no test runs a fit or touches a fit result",
  ["src/Minimiser.cpp", "AmpGen/Minimiser.h", "src/FitResult.cpp", "src/FitFraction.cpp", "src/ExtendLikelihoodBase.cpp", "src/MinuitParameterSet.cpp"],
  [("variables and function", "src/Minimiser.cpp prepare, operator(), doFit"), ("outcome", "src/Minimiser.cpp doFit, minos, scan, covMatrixFull, fitResult"), ("result", "src/FitResult.cpp constructors, getReducedCovariance, correlation"), ("files", "src/FitResult.cpp writeToFile, readFile, writeOptions"), ("constraints", "src/ExtendLikelihoodBase.cpp")],
  ["variables handed to the minimisation package, function values, parameters, covariances, files read back"])
p("P30", "Propagated uncertainties are the linear ones, and propagating changes nothing",
  "For every set of parameters, covariance matrix and set of functions, the error of a function is the root of its gradient contracted with the covariance, the covariance and correlation matrices of functions and of vector-valued functions are the corresponding contractions, and the weighted combination of estimates uses the inverse of that covariance; only parameters that float with a non-zero error take part, in the order of the covariance. "
  "Propagators built from a parameter set, a list, a covariance or a fit result, added to each other (parameters matched by name, covariances summed) or reset, behave accordingly. Computing an error leaves every parameter at its value, and evaluates the function there last. Random perturbations are the covariance's triangular root times the deviates around the original values, and resetting restores these.",
  ["inputs", "histories"], "all covariances, functions and sequences of operations on propagators",
  "no test uses an error propagator",
  ["src/ErrorPropagator.cpp", "AmpGen/ErrorPropagator.h", "src/FitResult.cpp"],
  [("linear errors", "src/ErrorPropagator.cpp getError, getVectorError, covarianceMatrix"), ("combination", "src/ErrorPropagator.cpp combinationCovWeighted, combinationWeights"), ("sum of propagators", "src/ErrorPropagator.cpp add, reset"), ("perturbations", "src/ErrorPropagator.cpp GaussErrorPropagator")],
  ["errors, covariances, correlations, weights, parameters afterwards"])
p("P31", "Numerical integrals are those of the integrand, over the region asked for",
  "For every integrand, region and number of dimensions, the one-dimensional, infinite, principal-value and multidimensional integrators return the integral to their stated precision, evaluate the integrand only inside the region, agree between their scalar and vectorised routes and on repetition. "
  "For every set of masses of a three-body decay and any history of changing them, each point of the square the plane integrator works on is an event of that decay, with the masses of its particles, the first pair at rest and the total mass of the mother in use (its own or one given with the call); positions are recovered from the event; the measure is that of the two squared masses, so that integrals over the plane equal those of the integrand there.",
  ["inputs", "histories"], "all integrands, regions, masses and points; all histories of changes of masses",
  "no test integrates anything",
  ["AmpGen/NumericalIntegration.h", "AmpGen/simd/integrate_fp.h", "AmpGen/DalitzIntegrator.h", "src/DalitzIntegrator.cpp"],
  [("one dimension", "AmpGen/NumericalIntegration.h integrate_1d, integrate_1d_inf, integrate_1d_cauchy"), ("rule and subdivision", "AmpGen/simd/integrate_fp.h integrate_fp, AmpGen/NumericalIntegration.h integrate"), ("three-body plane", "src/DalitzIntegrator.cpp setEvent, J, getMAB, sqDp1, sqDp2")],
  ["value of an integral", "events, measure and coordinates of the plane integrator"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
