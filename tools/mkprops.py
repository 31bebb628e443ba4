import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Array slicing visits every element exactly once, in the right place and order",
"For every multi-dimensional array and every choice of retained axes (in any listed order), iterating over the slices yields exactly the sub-arrays in which the retained axes run and the remaining indices are fixed, one for each combination of the remaining indices, in increasing row-major order of those indices; reading and writing through a slice touches exactly the corresponding elements of the full array and nothing else. The same holds for the row-by-row iteration of a matrix viewed as vectors, and for plain multi-index counting within arbitrary lower and upper bounds. Two iterators over the same array compare equal exactly when they stand at the same position.",
["inputs","configurations"],"all array shapes, ranks, element values, and retained-axis tuples",
"The SliceIterator tests compare one fixed expression on fixed shapes; they sample a few axis tuples and no strided or permuted arrays.",
["CPPQEDutils/SliceIterator.h","CPPQEDutils/SliceIterator.tcc","CPPQEDutils/MultiIndexIterator.h","CPPQEDutils/VectorFromMatrixSliceIterator.h"],
[("SliceIterator / fullRange","CPPQEDutils/SliceIterator.h"),("Transposer, Indexer","CPPQEDutils/SliceIterator.tcc"),("MultiIndexIterator::operator++","CPPQEDutils/MultiIndexIterator.h"),("blitzplusplus::vfmsi","CPPQEDutils/VectorFromMatrixSliceIterator.h")],
["contents seen and written through each slice","order of the dummy multi-indices"])

p("C02","Partial trace gives the textbook reduced state, alike for pure and mixed states",
"For every multi-partite state and every listed set of retained subsystems, tracing out the rest calls the user's functional on exactly the reduced state(s) and accumulates them so that any linear functional of the state is the sum over the traced-out basis; the reduced density operator equals the textbook one, with the subsystems in the listed order. A pure state and its projector are indistinguishable through the lazy density-operator interface: matrix elements, diagonals, dimensions, partial traces and the flattened real representation agree. Flattening a density matrix to real numbers and inflating it back reproduces it.",
["inputs","configurations"],"all state vectors and density operators up to rank 4 with arbitrary dimensions and all retained-subsystem tuples",
"The suite checks a single functional on fixed states (LDOSI etc. are not even built), so neither the axis permutations nor unequal dimensions are covered.",
["CPPQEDcore/quantumdata/LazyDensityOperator.h","CPPQEDcore/quantumdata/DensityOperator.h","CPPQEDcore/quantumdata/StateVector.h"],
[("partialTrace","CPPQEDcore/quantumdata/LazyDensityOperator.h"),("deflate/inflate","CPPQEDcore/quantumdata/LazyDensityOperator.h, DensityOperator.h"),("LazyDensityOperator::index","CPPQEDcore/quantumdata/StateVector.h, DensityOperator.h")],
["result of partialTrace","LazyDensityOperator element access"])

p("C03","State vectors and density operators obey linear algebra and value semantics",
"For every state: norm, normalisation, scalar product, projector, tensor product, linear combination, scaling, density-operator trace and renormalisation, adding the projector of a state vector with a weight, and Hermitian conjugation equal what the same operations give on dense vectors and matrices. Copy construction makes independent data, by-reference construction shares it, assignment copies values, and a moved-to object holds what the moved-from one held. Objects with different dimensions are reported as such.",
["inputs","histories"],"all shapes, values and operation sequences on state vectors and density operators",
"Existing tests use one state for entropy/negativity/purity and never exercise aliasing, assignment chains or unequal dimensions.",
["CPPQEDcore/quantumdata/StateVector.h","CPPQEDcore/quantumdata/DensityOperator.h","CPPQEDcore/quantumdata/ArrayBase.h","CPPQEDcore/quantumdata/DimensionsBookkeeper.h","CPPQEDutils/BlitzArrayExtensions.h","CPPQEDutils/ComplexArrayExtensions.h","CPPQEDutils/ComplexArrayExtensions.cc","CPPQEDutils/CMatrix.cc"],
[("StateVector operations","CPPQEDcore/quantumdata/StateVector.h"),("DensityOperator operations","CPPQEDcore/quantumdata/DensityOperator.h"),("doDirect, hermitianConjugate","CPPQEDutils/ComplexArrayExtensions.h")],
["values returned by norm/renorm/braket/dyad/operator*","aliasing between objects"])

p("C04","Entropy, mutual information, purity and negativity are right and invariant",
"For every density operator and bipartition, von Neumann entropy, mutual information, purity and negativity of the partial transpose equal their textbook definitions computed independently from the eigenvalues. They respect the textbook bounds (zero entropy and purity one for pure states, purity at least the inverse dimension, zero negativity for product states, equal entropies of the two halves of a pure state) and do not change under local unitary rotations, nor (for negativity) by exchanging the transposed subsystem with its complement.",
["inputs","configurations"],"all density operators (random rank, spectrum, dimensions) and all bipartitions",
"The tests check one entropy, one negativity and one purity value.",
["CPPQEDcore/quantumdata/EntanglementMeasures.h"],
[("negPT, entropy, mutualInformation, purity","CPPQEDcore/quantumdata/EntanglementMeasures.h")],
["returned measures"])

p("C05","Multi-diagonal and ket-bra operators act and combine like dense matrices",
"Operators built from multi-diagonal and elementary ket-bra operators by scaling, sums, products, Hermitian conjugation and tensor products act on every state vector exactly as the dense matrix built by the same expression does, for every rank, dimensions and offset of the off-diagonals. Attaching frequencies and propagating to a time multiplies each matrix element by the exponential that the diagonal free evolution prescribes, the result depends only on the final time and not on the intermediate times visited, and a sum of such operators used as a Hamiltonian acts as their propagated sum. Operators whose structure cannot be combined (unequal off-diagonal offsets or propagated to unequal times; diagonals of inconsistent length) are refused with an exception.",
["inputs","histories","programs"],"all operator expressions (random trees), dimensions, off-diagonal offsets, frequencies and sequences of propagation times",
"No Tridiagonal or Sigma test is among the running tests; the benchmark programs print numbers nobody compares.",
["CPPQEDcore/quantumoperator/Tridiagonal.h","CPPQEDcore/quantumoperator/Tridiagonal.tcc","CPPQEDcore/quantumoperator/Tridiagonal.cc","CPPQEDcore/quantumoperator/Sigma.h","CPPQEDcore/quantumoperator/Sigma.cc","CPPQEDcore/quantumoperator/TridiagonalHamiltonian.h"],
[("Tridiagonal apply/operator*/+=/hermitianConjugate/propagate/furnishWithFreqs","CPPQEDcore/quantumoperator/Tridiagonal.tcc"),("Sigma, DirectProduct","CPPQEDcore/quantumoperator/Sigma.h"),("TridiagonalHamiltonian::addContribution","CPPQEDcore/quantumoperator/TridiagonalHamiltonian.h")],
["dpsidt after apply"])

p("C06","The Fourier transform of data and states is an exact unitary DFT pair",
"For every power-of-two length and every data, the forward transform equals the discrete Fourier sum in the documented sign and ordering convention, the backward transform inverts it up to the documented factor, and both are linear and preserve the (scaled) norm. Transforming a state vector or density operator along any subset of its axes equals applying the dense transform to exactly those axes with a unitary normalisation, so norms, traces, Hermiticity and the eigenvalues are preserved; transforming back reproduces the original. Lengths that the transform does not support are refused with an exception.",
["inputs","configurations"],"all data, lengths, axes, ranks and transform directions",
"One test transforms one fixed function of one length.",
["CPPQEDutils/FFT.h","CPPQEDutils/FFT.tcc","CPPQEDutils/FFT.cc","CPPQEDcore/quantumdata/LazyDensityOperatorFFT.h","CPPQEDcore/quantumdata/LazyDensityOperatorFFT.cc"],
[("fft::transform","CPPQEDutils/FFT.cc, FFT.tcc"),("ffTransform","CPPQEDcore/quantumdata/LazyDensityOperatorFFT.h/.cc")],
["transformed data"])

p("C07","Adaptive ODE stepping is accurate, lands on time, and keeps its books",
"For every initial-value problem, sequence of requested time steps, and relative/absolute tolerance, both adaptive engines follow the exact solution within a small multiple of the requested tolerance, a tighter tolerance giving a correspondingly more accurate result. The closed-form driven damped oscillator shipped as a reference solves its equation in every damping regime. A single step never goes beyond the requested time, advances the time by exactly the step it reports as performed, and proposes a next step in the direction of evolution; evolving for a given interval ends at exactly that time, forward or backward. The reported numbers of steps taken, failed steps and derivative calls match what happened, and stepping is deterministic.",
["inputs","histories","configurations"],"all linear and nonlinear test problems with known solutions, tolerances, step-size limits and sequences of target times",
"The tests integrate two fixed problems with one tolerance and only compare end results.",
["CPPQEDutils/ODE.h","CPPQEDutils/ODE_GSL.h","CPPQEDutils/DrivenDampedHarmonicOscillator.h","CPPQEDutils/DrivenDampedHarmonicOscillator.cc"],
[("ode::Base::step, advance","CPPQEDutils/ODE.h"),("ode_engine::ControlledErrorStepperGSL::try_step","CPPQEDutils/ODE_GSL.h")],
["state and time after each step","getDtDid/getDtTry","logged step statistics"])

p("C08","A run streams at the promised instants, with columns matching the legend",
"For every trajectory and run specification, running it streams the state at the start and then at the promised instants: after every given number of adaptive steps, or at every multiple of the given time interval, or the given number of intervals, up to and including the end time, and nothing is streamed twice for the same time or missed. State snapshots appear with the requested frequency, the first-state switch is obeyed, and the run stops early exactly when an enabled stop condition (stationarity over the requested window within tolerance) is met; the returned record equals what was streamed. The columns of every streamed line are the time, the last step, and the averages in the order and number announced in the legend, whose numbering is consecutive, at the requested precision.",
["inputs","configurations","histories"],"all run specifications (steps per line, interval length, number of intervals, end time, snapshot frequency, precision, stop rules) on trajectories with arbitrary adaptive step sizes",
"No running test calls the run driver at all; Testing/run needs submodules not present.",
["CPPQEDutils/Trajectory.h","CPPQEDutils/Trajectory.cc","CPPQEDutils/KeyPrinter.cc","CPPQEDutils/FormDouble.cc","CPPQEDutils/FormDouble.h","CPPQEDutils/CommentingStream.h"],
[("trajectory::run","CPPQEDutils/Trajectory.h"),("AutostopHandler","CPPQEDutils/Trajectory.h"),("KeyPrinter::stream","CPPQEDutils/KeyPrinter.cc"),("FormDouble","CPPQEDutils/FormDouble.h/.cc")],
["streamed text","returned data-streamed array"])

p("C09","Saving and resuming a run is equivalent to not having interrupted it",
"For every trajectory and every point at which a state was saved, loading the saved state restores the full state (time, state data, step-size information and, for stochastic trajectories, the random-generator state and jump log), so that the continued evolution is the same as that of the uninterrupted one. A state file holding several snapshots is continued from the last one, reading them one by one returns them in order of saving, and the initial-state file mechanism starts from the stored state. A state file of another kind of trajectory, another rank, for quantum trajectories one of other dimensions, or a truncated file is refused with an error instead of being silently accepted.",
["histories","crash_points","inputs","fault_sequences"],"all trajectories, save points, numbers of snapshots, file/compressed formats and truncation points",
"Testing/continue is not buildable here and compares three fixed runs only.",
["CPPQEDutils/Trajectory.h","CPPQEDutils/Trajectory.cc","CPPQEDutils/Archive.h","CPPQEDcore/quantumtrajectory/QuantumTrajectory.h","CPPQEDutils/StochasticTrajectory.h","CPPQEDutils/BlitzArray.h"],
[("SerializationMetadata, writeViaSStream/readViaSStream","CPPQEDutils/Trajectory.h"),("stateIO of the trajectories","CPPQEDcore/quantumtrajectory/*.h, CPPQEDutils/Simulated_.h, StochasticTrajectory.h")],
["state and stream after reload","exceptions on foreign/corrupt files"])

p("C10","Command-line parameters reach the program exactly as given or the run is refused",
"For every parameter table and every command line, each parameter ends up with exactly the value given for it (the last one if repeated), every other one keeps its default (the only derived change being that the interaction picture becomes its unitary variant when the master equation is requested), and the recorded command line is the one given; a printed parameter list shows the actual values. An unknown parameter name, a missing value, or a value not parseable as the parameter's type raises an error instead of being ignored, and a name registered twice is refused. Negatable boolean switches, and parameters of any streamable type (integers, reals, complex numbers, strings, enumerations) follow the same rule.",
["inputs","configurations"],"all parameter tables (names, types, defaults, suffixes) and argument sequences",
"No test runs the parameter parser with anything else than fixed arguments.",
["CPPQEDutils/Pars.h","CPPQEDutils/Pars.cc","CPPQEDutils/BooleanNegatedProxy.h","CPPQEDutils/BooleanNegatedProxy.cc","CPPQEDutils/IO_Manip.h","CPPQEDcore/high/QM_Picture.cc","CPPQEDcore/quantumtrajectory/EvolutionMethod.cc","CPPQEDelements/utils/ModeFunction.cc","CPPQEDelements/utils/ParticleInitialCondition.h"],
[("Table::add / Table::operator[] / update","CPPQEDutils/Pars.h, Pars.cc"),("BooleanNegatedProxy","CPPQEDutils/BooleanNegatedProxy.cc"),("updateWithPicture, QM_Picture/Method stream operators","CPPQEDcore/high/QM_Picture.cc, CPPQEDcore/quantumtrajectory/EvolutionMethod.cc")],
["parameter references after update","exceptions"])

p("C11","Every elementary system has the textbook Hamiltonian, jumps and jump rates",
"For every parameter set, each elementary system (harmonic mode, qubit, spin, multi-level atom, moving particle, in all its driven and lossy variants) acts on a state with the documented Hamiltonian, and each of its quantum jumps with the documented jump operator. The rate reported for a jump equals the squared norm of the jumped state, the jump's superoperator equals the jump operator sandwiching the density operator, and the anti-Hermitian part of the non-Hermitian Hamiltonian removes norm at exactly the total jump rate; phase noise, whose jumps leave the norm rate state-independent, may differ by a constant that normalisation removes. All hold below the truncation edge of the basis and for pure and mixed states.",
["inputs","configurations"],"all parameter values, cutoffs, states and element variants",
"The physics tests need the missing submodules; the running ones never instantiate an element.",
["CPPQEDelements/frees/Mode.cc","CPPQEDelements/frees/Mode_.h","CPPQEDelements/frees/Qbit.cc","CPPQEDelements/frees/Spin.cc","CPPQEDelements/frees/MultiLevel.h","CPPQEDelements/frees/Particle.cc","CPPQEDelements/frees/PumpedTwoLevelAtom.cc","CPPQEDelements/frees/HomodynedMode.cc","CPPQEDelements/frees/TimeIndependentMatrixHamiltonian.cc","CPPQEDcore/structure/ElementLiouvillean.h"],
[("mode::Hamiltonian/Liouvillean/mode::make","CPPQEDelements/frees/Mode.cc"),("qbit::*","CPPQEDelements/frees/Qbit.cc"),("spin::*","CPPQEDelements/frees/Spin.cc"),("MultiLevel*","CPPQEDelements/frees/MultiLevel.h"),("particle::*","CPPQEDelements/frees/Particle.cc"),("ElementLiouvillean rates/actWithJ/actWithSuperoperator","CPPQEDcore/structure/ElementLiouvillean.h")],
["addContribution, rates, actWithJ, actWithSuperoperator"])

p("C12","The quantum-mechanical picture chosen never changes the physics",
"For every system and parameter set, evolving the same initial state in the Schrödinger picture, the interaction picture or the unitary interaction picture gives the same physical state at every time (up to the integration tolerance). The exactly solved part of the evolution composes (evolving by t1 and then by t2 equals evolving by t1+t2), is the identity for zero time whatever was asked before, and equals the exponential of the generator it replaces.",
["inputs","histories","configurations"],"all elements and composites available in several pictures, all parameters, times and sequences of intermediate times",
"No running test evolves any quantum system.",
["CPPQEDcore/structure/FreeExact.h","CPPQEDcore/structure/Exact.h","CPPQEDcore/structure/Hamiltonian.h","CPPQEDcore/quantumoperator/TridiagonalHamiltonian.h","CPPQEDelements/frees/Mode.cc","CPPQEDelements/frees/Qbit.cc","CPPQEDelements/frees/Spin.cc","CPPQEDelements/frees/MultiLevel.h","CPPQEDelements/frees/Particle.cc","CPPQEDelements/interactions/ParticleCavity.cc"],
[("FreeExact::actWithU / updateU","CPPQEDcore/structure/FreeExact.h and elements"),("TridiagonalHamiltonian with frequencies","CPPQEDcore/quantumoperator/TridiagonalHamiltonian.h")],
["state after evolution in each picture","actWithU"])

p("C13","Streamed averages are the textbook expectation values",
"For every state and every system, the averages computed are the expectation values (and variances) of the operators named in the legend, in that order: photon number and its variance, field and quadratures and ladder-operator moments, populations, polarisation, spin components and their variances, momentum and position with their standard deviations, mode–mode and qubit–mode correlations, and reduced density-matrix elements. They are the same for a pure state and for its projector and depend linearly on the density operator before the final processing. Collections of averages report exactly the concatenation of their members' averages.",
["inputs","configurations"],"all states (pure and mixed), cutoffs and averaging options",
"No running test evaluates any average.",
["CPPQEDcore/structure/ElementAveraged.h","CPPQEDcore/structure/ElementAveraged.cc","CPPQEDcore/structure/Averaged.h","CPPQEDelements/utils/AveragingUtils.h","CPPQEDelements/frees/Mode.cc","CPPQEDelements/frees/Qbit.cc","CPPQEDelements/frees/Spin.cc","CPPQEDelements/frees/Particle.cc","CPPQEDelements/interactions/ModeCorrelations.cc","CPPQEDelements/interactions/QbitModeCorrelations.cc"],
[("average_v / process_v of the elements","CPPQEDelements/frees/*.cc, CPPQEDelements/interactions/*.cc"),("ReducedDensityOperator, Collecting, Transferring","CPPQEDelements/utils/AveragingUtils.h")],
["average(), process(), stream of a system"])

p("C14","Interactions implement the documented Hermitian couplings",
"For every parameter set, each interaction (Jaynes–Cummings with qubits, spins or multi-level atoms, coupled modes in all coupling forms, Dicke coupling, particle–cavity and particle–two-mode couplings) acts on a two- or three-partite state with the documented coupling Hamiltonian, with the subsystems in the documented order. The coupling is Hermitian (for particle couplings of two different wave numbers away from the edge of the momentum cutoff), i.e. it conserves the norm, conserves the excitation number where the documented form does, and vanishes for zero coupling strength.",
["inputs","configurations"],"all coupling parameters, cutoffs, mode functions, pictures and states",
"No running test instantiates an interaction.",
["CPPQEDelements/interactions/JaynesCummings_.h","CPPQEDelements/interactions/JaynesCummings.cc","CPPQEDelements/interactions/CoupledModes.cc","CPPQEDelements/interactions/GeneralDicke.cc","CPPQEDelements/interactions/MLJC.h","CPPQEDelements/interactions/ParticleCavity.cc","CPPQEDelements/interactions/ParticleTwoModes.cc","CPPQEDelements/frees/Particle.cc"],
[("jaynescummings, coupledmodes, GeneralDicke, MLJC, particlecavity, ParticleTwoModes Hamiltonians","CPPQEDelements/interactions/*"),("particle::mfNKX/cosNKX/mfComposition","CPPQEDelements/frees/Particle.cc")],
["addContribution on random states"])

p("C15","A composite system is the sum of its parts embedded at their places",
"For every composite of free systems and interactions, the composite Hamiltonian, exact propagation, list of jump rates, effect of each jump, superoperators and averages equal those of the constituents embedded into the tensor-product space at the announced positions, with jumps and averages concatenated in the documented order (frees in order, then interactions in order). A binary system and the equivalent general composite behave identically, and relabelling subsystems consistently only relabels the results. The highest frequency and dimensions of the whole follow from the parts, and inconsistent wirings are refused with an exception.",
["configurations","inputs","programs"],"all composites of up to four subsystems with arbitrary parts, wirings, dimensions and states",
"Composite/BinarySystem tests are not part of the running suite.",
["CPPQEDcore/composites/BinarySystem.h","CPPQEDcore/composites/BinarySystem.cc","CPPQEDcore/composites/Composite.h","CPPQEDcore/composites/Composite.tcc","CPPQEDcore/composites/SubSystem.h","CPPQEDcore/composites/Act.h"],
[("binary::make and its bases","CPPQEDcore/composites/BinarySystem.cc"),("composite::make and its bases","CPPQEDcore/composites/Composite.tcc")],
["addContribution, actWithU, rates, actWithJ, averages of the composite"])

p("C16","Master-equation evolution solves the Lindblad equation and stays physical",
"For every system, initial density operator and tolerance, evolving with the master-equation driver follows the solution of the Lindblad equation built from the system's Hamiltonian and jump operators, within the requested tolerance, at every streamed instant. The density operator stays Hermitian and of unit trace throughout and positive within tolerance, and a lossless system keeps its purity. A pure initial state and its projector lead to the same evolution, and a system not suited to the method or of different dimensions is refused.",
["inputs","histories","configurations"],"all systems up to two parts, initial states, pictures, tolerances and step sequences",
"The Master tests are not built in the running suite.",
["CPPQEDcore/quantumtrajectory/Master.h","CPPQEDcore/quantumtrajectory/QuantumTrajectory.h","CPPQEDcore/quantumtrajectory/DensityOperatorStreamer.h"],
[("Master::step and derivs","CPPQEDcore/quantumtrajectory/Master.h"),("DensityOperatorStreamer","CPPQEDcore/quantumtrajectory/DensityOperatorStreamer.h")],
["density operator after each step","streamed line"])

p("C17","A Monte-Carlo wave-function trajectory follows the quantum-jump rules",
"For every system, seed and jump-probability limits, a single trajectory keeps the state normalised, evolves between jumps by the normalised non-Hermitian evolution, and at a jump turns into the normalised jumped state; jumps occur with the probability rate-times-step for each channel, and a channel with zero rate never fires. Steps whose jump probability would exceed the tolerated overshoot are undone and retried smaller, so that no accepted step exceeds it and undoing leaves no trace in time or state. The log records exactly the jumps that happened, with time and channel, and the largest deviation of the norm; equal seeds give identical trajectories. All this holds for user-defined systems of every time-dependence level as well.",
["histories","schedules","inputs","configurations"],"all systems, random-number histories, seeds, probability limits and step sequences",
"Nothing that needs the random engines is built in the running suite.",
["CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h","CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.h","CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.cc","CPPQEDcore/quantumtrajectory/QuantumTrajectory.h"],
[("MCWF_Trajectory::step/coherentTimeDevelopment/manageTimeStep/performJump","CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h"),("MCWF_Trajectory Logger","CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.cc")],
["state after each step","jump log"])

p("C18","Ensembles average independent trajectories and converge to the master equation",
"For every ensemble, the ensemble-averaged density operator and averages equal the arithmetic mean over its member trajectories at the same time, all members being advanced together to the requested times; for many members it agrees with the master equation within statistical error. Members use mutually different, reproducible random streams: equal seeds and stream ordinals give the same results, different ones give different results. Saving and restoring any random engine continues the same random sequence, and drawn arrays are determined by engine, seed and distribution.",
["histories","configurations","inputs"],"all systems, ensemble sizes, seeds, stream ordinals and random engines",
"Nothing that needs the random engines is built in the running suite.",
["CPPQEDutils/StochasticTrajectory.h","CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h","CPPQEDcore/quantumtrajectory/Evolution_.h","CPPQEDutils/Random.h","CPPQEDutils/Random.cc"],
[("Ensemble::averaged/advance/step","CPPQEDutils/StochasticTrajectory.h"),("AverageTrajectories","CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h"),("evolution::_ dispatch","CPPQEDcore/quantumtrajectory/Evolution_.h"),("streamOfOrdo, incrementForNextStream, engine serialization","CPPQEDutils/Random.h")],
["ensemble averaged density operator","engine outputs"])

p("C19","Initial states are the documented normalised states",
"For every parameter set, the prepared initial state is normalised and is the documented one: number states and coherent states (also with very large amplitudes and numbers, without overflow or invalid numbers), qubit states of given excited amplitude, and particle wave packets with the requested mean position, mean momentum and width, whether given in position or momentum space, or as an oscillator state. Number states beyond the cutoff and qubit amplitudes of modulus above one are refused.",
["inputs","configurations"],"all initial-state parameters and cutoffs",
"No running test prepares any initial state.",
["CPPQEDelements/frees/Mode.cc","CPPQEDelements/frees/Qbit.cc","CPPQEDelements/frees/Particle.cc","CPPQEDelements/frees/ParsParticle.cc","CPPQEDutils/MathExtensions.cc","CPPQEDutils/MathExtensions.h"],
[("mode::coherent/fock/init","CPPQEDelements/frees/Mode.cc"),("coherentElement","CPPQEDutils/MathExtensions.cc"),("particle::wavePacket/hoState/init","CPPQEDelements/frees/Particle.cc"),("qbit::init/state0/state1","CPPQEDelements/frees/Qbit.cc")],
["returned state vectors"])

p("C20","Wigner and Q functions describe the state",
"For every state of a mode, the Wigner and Husimi functions evaluated at any phase-space point equal their textbook definitions (through the chosen convention), are real, linear in the density operator, and respect the textbook bounds (Q between zero and one, Wigner function, of convention 1/pi for the vacuum at the origin, within plus-minus 1 over pi); the scan over a phase-space grid evaluates exactly these values at exactly the grid points, in order. Displacing or rotating the state in phase space displaces or rotates the functions.",
["inputs"],"all density operators of a mode, phase-space points, grids and conventions",
"No running test evaluates a quasi-probability function.",
["CPPQEDcore/quantumdata/DistributionFunctions.h","CPPQEDcore/quantumdata/DistributionFunctions.cc"],
[("wignerFunction, qFunction, scanFunction","CPPQEDcore/quantumdata/DistributionFunctions.h/.cc")],
["function values","scan output"])

p("C21","Evolving from the command line gives the requested evolution, end to end",
"For every quantum system, initial condition and command line, evolve runs the requested method (single trajectory, ensemble, master equation) with the requested length, streaming, precision, tolerance, random streams and entanglement measures: each streamed and returned line holds the time, the last step and the expectation values of what separately run trajectories (single, or the mean over successive streams) or the Lindblad equation give at that instant, followed by the requested entanglement measures, and the legend announces exactly these columns. Without jumps all methods agree. The evolved state is found in the state vector (single) or density operator (evolveMaster) given by the caller, also when the run is resumed from file; otherwise the initial condition is left as it was.",
["inputs","configurations","histories"],"all systems, pictures, initial states, evolution methods and combinations of run parameters",
"No running test calls evolve.",
["CPPQEDcore/quantumtrajectory/Evolution_.h","CPPQEDcore/quantumtrajectory/EvolutionMethod.cc","CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h","CPPQEDcore/quantumtrajectory/Master.h","CPPQEDcore/quantumtrajectory/DensityOperatorStreamer.h","CPPQEDutils/Trajectory.h"],
[("evolve, evolveMaster, evolution::Pars","CPPQEDcore/quantumtrajectory/Evolution_.h"),("operator>>(Method)","CPPQEDcore/quantumtrajectory/EvolutionMethod.cc"),("DensityOperatorStreamer","CPPQEDcore/quantumtrajectory/DensityOperatorStreamer.h")],
["streamed output","returned record","evolved state"])
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
