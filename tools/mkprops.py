#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[x.strip() for x in observe.split(";")]
    a["hook_needed"]="per-transition callback in the Monte-Carlo cascade (used where available)" if hook else "none"
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
EVT="every supported reaction (spontaneous fission and neutron energies from thermal to 20 MeV), every random sequence and every discrete-level data set"
S='libcgmf/src/'; I='libcgmf/include/'
REF="The repository's tests compare a handful of recorded runs (three yield files; the event runs need a data file that is not shipped)"
p("C01","Nucleons and charge are conserved in every fission event",
 "In every generated event the masses of the two fragments plus the number of pre-fission neutrons equal the mass number of the fissioning compound nucleus, and the two charges add up to its charge. The light fragment is never heavier than the heavy one, and the total neutron and photon multiplicities are the sums of the two fragments' multiplicities. The same holds for every line of a yields run.",
 ["inputs","histories"],EVT,REF+"; conservation has to hold event by event for all reactions and seeds.",
 [S+"cgmfEvents.cpp",S+"FissionFragments.cpp",S+"specmain.cpp"],[("fragment sampling","FissionFragments.cpp generateInitialFissionFragmentHistories"),("event assembly","cgmfEvents.cpp cgmfEvent constructor"),("chance selection","FissionFragments.cpp prefission neutron sampling")],
 observe="event getters, yields file")
p("C02","Scission energy balance closes",
 "In every event the kinetic energies of the two primary fragments plus their excitation energies equal the energy available: the Q-value of that split from the mass tables plus the excitation energy of the nucleus that actually fissions. That excitation energy is the one brought in by the incident neutron, less the binding and kinetic energies of all neutrons emitted before fission. The two fragments share the kinetic energy as two back-to-back bodies and neither excitation energy is negative.",
 ["inputs","histories"],EVT,REF+"; energy created or lost shows only as a small shift of sampled numbers.",
 [S+"FissionFragments.cpp",S+"masstable.cpp",S+"cgmfEvents.cpp"],[("TXE and its sharing","FissionFragments.cpp computeFragmentExcitationEnergy, sortExcitationEnergy"),("pre-fission energy loss","FissionFragments.cpp getPrefissionNeutronEnergy"),("two-body split","FissionFragments.cpp generateInitialFissionFragmentHistories")],
 observe="event getters; initial fragment pairs")
p("C03","Fragment excitation energy is fully accounted for by its decay",
 "For every fragment, the initial excitation energy equals the sum over emitted neutrons of centre-of-mass kinetic energy plus neutron separation energy, plus the centre-of-mass energies of the emitted photons, plus the energy of transitions made by internal conversion, plus the excitation of a level in which decay stopped because of the coincidence window. Neutrons are emitted only while energetically allowed and the residue ends at its ground state or at such a level. Only a fragment born below the continuum, inside the discrete-level region, is moved to the level nearest to its excitation energy; otherwise no energy is created or lost anywhere.",
 ["inputs","histories"],"every fragment (Z, A, excitation energy, spin, parity), every random sequence, every discrete-level data set",REF+"; no test follows the decay chain of a single fragment.",
 [S+"specmain.cpp",S+"specmc.cpp",S+"speclab.cpp",S+"ripl2levels.cpp"],[("Monte-Carlo cascade","specmc.cpp mcHistoryLoop and helpers"),("particle bookkeeping","specmain.cpp recordEmittedParticlesFission"),("initial state","specmain.cpp specMCMainFission")],
 observe="event getters; per-transition monitor hook",hook=True)
p("C04","Linear momentum is conserved",
 "In every event the momenta of the two primary fragments and of all pre-fission neutrons add up to the momentum brought in by the incident neutron along the beam (zero for spontaneous fission). Each fragment's momentum after neutron emission is its momentum before emission minus the momenta of the neutrons it emitted. Fragment momenta, kinetic energies, masses and reported flight directions agree with one another.",
 ["inputs","histories"],EVT,REF+"; the vectors are never combined by any test.",
 [S+"FissionFragments.cpp",S+"kinematics.cpp",S+"specmain.cpp",S+"cgmfEvents.cpp"],[("fragment momenta","FissionFragments.cpp generateInitialFissionFragmentHistories"),("recoil","specmain.cpp / kinematics.cpp"),("pre-fission recoil","FissionFragments.cpp prefission neutron sampling")],observe="event getters")
p("C05","Emitted particles are boosted correctly to the laboratory",
 "Every prompt neutron's laboratory energy and direction are the Galilean sum of its centre-of-mass velocity and the velocity of the fragment emitting it at that moment. Every photon's laboratory energy is the Doppler-shifted centre-of-mass energy for the velocity of its fragment after neutron emission. The reported final kinetic energy of each fragment corresponds to its final momentum.",
 ["inputs","histories"],EVT,REF+"; frame transformations are not tested.",
 [S+"kinematics.cpp",S+"speclab.cpp",S+"specmain.cpp"],[("boosts","kinematics.cpp"),("recording","specmain.cpp recordEmittedParticlesFission")],observe="event getters")
p("C06","Every reported quantity is well formed",
 "Every number an event reports is finite and physical: direction cosines are unit vectors, energies are positive, spins are non-negative and half-integer exactly when the mass number is odd, parities are +1 or -1, and multiplicities are non-negative and within the published limits. Asking for a particle outside the reported multiplicity returns -1. The event echoes the target and incident energy it was generated for.",
 ["inputs","histories","configurations"],EVT,REF+"; rare tails (many particles, extreme splits) are never sampled.",
 [S+"cgmfEvents.cpp",S+"specmain.cpp",S+"FissionFragments.cpp"],[("getters","cgmfEvents.h / cgmfEvents.cpp"),("particle bookkeeping","specmain.cpp recordEmittedParticlesFission")],observe="event getters")
p("C07","An event is a function of its inputs and random sequence only",
 "Generating an event for the same reaction, energy, time, window and random sequence gives bit-identical results, whatever events, reactions, energies, windows or interfaces were used before in the same process, and whichever process it runs in. A run split into several runs with consecutive starting event numbers produces the same histories as one run.",
 ["histories","inputs"],"every sequence of earlier calls in the process, every reaction and energy, every split of a run",REF+" from a fresh process; history dependence needs particular call sequences.",
 [S+"cgmfEvents.cpp",S+"specmain.cpp",S+"FissionFragments.cpp","utils/cgmf/cgmf.cpp"],[("global state","global.h; statics in specmain.cpp, cgmfEvents.cpp, ripl2levels.cpp, masstable.cpp"),("seeding","utils/cgmf/cgmf.cpp")],observe="event getters; history files")
p("C08","Coincidence window and emission times are honoured",
 "No particle is emitted before the time of fission: neutrons and photons from the continuum are emitted at that time, and a photon from a discrete level after the sampled lifetimes of all the levels passed on the way, which follow the exponential law with the tabulated half-life. With a coincidence window, exactly the transitions that happen within the window after fission are made and the fragment stays in the level it is then in, in every event of the run and for either fragment. With no window, or a negative one, every fragment decays to its ground state.",
 ["inputs","histories","configurations"],"every window, start time, level scheme with isomers, and every sequence of windows used in one process",REF+"; no recorded run uses more than one window and isomers are rare.",
 [S+"specmc.cpp",S+"specmain.cpp",S+"cgmfEvents.cpp"],[("discrete cascade timing","specmc.cpp mcDecay of discrete states"),("window","cgmfEvents.cpp, specmain.cpp set_time_coincidence_window")],observe="event getters; per-transition monitor hook",hook=True)
p("C09","Discrete cascades follow the evaluated level scheme",
 "Once a fragment is in a discrete level, every further photon corresponds to a transition listed for that level in the level file, chosen with the tabulated branching ratios, and replaced by internal conversion with the tabulated probability. Transitions from the continuum into discrete levels respect electric and magnetic dipole and electric quadrupole selection rules; only a nucleus left at the end of its continuum without an electric-dipole partner goes to the level nearest in spin. The cascade never visits a level that is not in the file for that nucleus.",
 ["inputs","histories","configurations"],"every nucleus, level scheme and random sequence",REF+" and none with level data.",
 [S+"ripl2levels.cpp",S+"specmc.cpp",S+"gampop.cpp"],[("level loading","ripl2levels.cpp"),("branching","specmc.cpp"),("continuum to discrete","gampop.cpp, gtrans.cpp")],observe="photons of events; per-transition monitor hook",hook=True)
p("C10","Fragment masses, charges and kinetic energies follow the model inputs",
 "For every reaction and energy, the sampled primary fragment masses follow the tabulated energy-dependent mass-yield parametrisation, charges follow the charge-distribution systematics for that mass, and total kinetic energies follow the tabulated mean and width for that mass and the tabulated energy dependence. The yields are normalised, symmetric under light-heavy exchange, and vanish where the model gives nothing.",
 ["inputs","histories"],"every reaction, incident energy and random sequence",REF+"; only three energies, and a distribution is not decided by one sample.",
 [S+"Yields.cpp",S+"FissionFragments.cpp","data/yamodel.dat","data/tkemodel.dat"],[("Y(A), TKE(A)","Yields.cpp"),("Y(Z|A)","FissionFragments.cpp computeWahlParametersForChargeDistribution, buildYZA"),("sampling","FissionFragments.cpp sampleFissionFragments")],observe="initial fragment pairs and yields files")
p("C11","Pre-fission neutron emission follows the multi-chance model",
 "The probability of each fission chance follows the tabulated multi-chance fission probabilities at the incident energy, and the fraction of pre-equilibrium neutrons follows its tabulated parametrisation. No neutron is emitted before spontaneous fission or when the energy does not allow it, and every emitted one leaves the residual nucleus with at least its fission barrier. Each pre-fission neutron has positive energy, and the reported number is the number actually emitted.",
 ["inputs","histories"],"every reaction and energy up to 20 MeV, every random sequence",REF+"; one random stream at two energies above the thresholds.",
 [S+"FissionFragments.cpp",S+"excinterface.cpp",S+"evapinterface.cpp","data/multichancefission.dat","data/preeq-params.dat"],[("chance selection","FissionFragments.cpp readMultichanceFissionData, getPrefissionNeutronEnergy"),("pre-equilibrium","excinterface.cpp, exciton.cpp")],observe="event getters; initial fragment pairs")
p("C12","Initial spins and parities follow the spin model",
 "Each fragment's initial spin follows the (2J+1)exp(-J(J+1)/2B^2) law, with B^2 proportional to the deformed rigid-body moment of inertia, to the fragment's temperature at its own excitation energy and to the tabulated energy-dependent scaling factor of the reaction. Positive and negative parity are equally likely and independent of the spin.",
 ["inputs","histories"],"every reaction, energy, fragment and random sequence",REF+"; no test looks at spins.",
 [S+"FissionFragments.cpp","data/spinscalingmodel.dat","data/deformations.dat","data/temperatures.dat"],[("spin sampling","FissionFragments.cpp getInitialSpin"),("scaling","FissionFragments.cpp readSpinScaling")],observe="initial fragment pairs")
p("C13","Angular distributions are isotropic or follow the tabulated anisotropy",
 "Fission axes are isotropic for spontaneous fission and, for neutron-induced fission, follow 1+b*cos^2 about the beam with the tabulated anisotropy at that incident energy; azimuths are uniform. Prompt neutrons and photons are isotropic in the frame of the emitting fragment, and the two fragments are treated alike. Neutrons emitted before fission are isotropic in the frame of the emitting nucleus, except pre-equilibrium ones, which follow the tabulated forward-peaked distribution about the beam.",
 ["inputs","histories"],"every reaction, energy and random sequence",REF+"; an angular bias is invisible in single values.",
 [S+"FissionFragments.cpp",S+"kinematics.cpp",S+"specmain.cpp","data/anisotropy.dat"],[("fission axis","FissionFragments.cpp readAnisotropy, generateInitialFissionFragmentHistories"),("isotropic emission","kinematics.cpp, specmain.cpp")],observe="event getters; initial fragment pairs")
p("C14","Statistical de-excitation reproduces the validated release",
 "For a fragment of given charge, mass, excitation energy, spin and parity, the distributions of neutron and photon multiplicity, of centre-of-mass neutron energies and of photon energies are those of the validated release. For the same random sequence the individual decay is the same up to rounding. The competition between neutron and photon emission, the level densities, transmission coefficients and strength functions it rests on do not drift.",
 ["inputs","histories"],"every fragment over the fission-product region, excitation up to 40 MeV, spins up to 20, every random sequence",REF+"; the statistical decay is not executed by any runnable test.",
 [S+"specmc.cpp",S+"gampop.cpp",S+"parpop.cpp",S+"levden.cpp",S+"gdr.cpp",S+"gtrans.cpp",S+"omcalc.cpp",S+"stattrans.cpp",S+"setup.cpp"],[("decay widths","gampop.cpp, parpop.cpp, stattrans.cpp"),("level densities","levden.cpp, kcksyst.cpp"),("transmission","omcalc.cpp and optical-model files")],observe="decay of single fragments")
p("C15","Reference results of the release are reproduced",
 "Running the program with the reactions, energies and event numbers of the published reference results, and of reference runs recorded over every supported reaction from thermal to 20 MeV, reproduces the recorded fragments, energies, momenta, spins, neutrons and photons event by event up to rounding. Average neutron and photon multiplicities of the standard reactions stay at their validated values.",
 ["inputs","histories"],"every supported reaction and energy, every event number",REF+"; the events references cannot run without the level file.",
 [S+"cgmfEvents.cpp",S+"FissionFragments.cpp",S+"specmain.cpp","utils/cgmf/cgmf.cpp"],[("event generation","cgmfEvents.cpp"),("program","utils/cgmf/cgmf.cpp")],observe="history and yields files, event getters")
p("C16","Unsupported requests are refused, supported ones served",
 "A request for a reaction, energy, file or data set the code does not support (unknown target, spontaneous fission of a target without it, energy above 20 MeV or negative, missing or unreadable data files, unknown options) ends with a diagnostic and a non-zero exit status and never produces an event or a crash. Every supported target is accepted at every energy from thermal to 20 MeV.",
 ["inputs","configurations","fault_sequences"],"every target, energy, command line and missing data file",REF+"; no failing request is tested.",
 [S+"FissionFragments.cpp",S+"terminate.cpp","utils/cgmf/cgmf.cpp",S+"cgmfEvents.cpp",S+"masstable.cpp"],[("validation","FissionFragments.cpp setOptions, cgmf.cpp readUserInput"),("termination","terminate.cpp cgmTerminateCode")],observe="exit status, stderr, output files")
p("C17","No memory error or undefined behaviour",
 "For every supported request, level file within the format's documented limits and random sequence, the library and program read and write only memory they own and initialised, never overflow or index outside a table, and execute no undefined operation. Particle-rich decays and extreme but legal random numbers are no exception.",
 ["inputs","configurations","histories"],EVT+", with hostile random numbers","Tests run without sanitizers on three reactions.",
 [S+"specmain.cpp",S+"FissionFragments.cpp",S+"ripl2levels.cpp",S+"Yields.cpp",S+"masstable.cpp"],[("fixed-size tables","dimensions.h, config-ff.h, cgmfEvents.h"),("recording","specmain.cpp recordEmittedParticlesFission")],observe="AddressSanitizer, UBSan, MemorySanitizer/valgrind reports")
p("C18","Objects and interfaces can be created and destroyed freely",
 "Any sequence of creating and destroying events and yields through the C++ and C interfaces, of switching reaction or energy, and of library clean-up followed by re-use, neither leaks memory nor frees or uses anything twice, and memory use stays bounded over arbitrarily many events. Everything the public headers declare can be linked and called.",
 ["histories"],"every sequence of create, query, destroy and clean-up calls","Tests call each interface once per process.",
 [S+"cgmfEvents.cpp",S+"cgmfEvents_capi.cpp",S+"FissionFragments.cpp",S+"specmain.cpp"],[("ownership","cgmfEvents.cpp constructors and destructor, specmain.cpp allocate/free"),("C wrapper","cgmfEvents_capi.cpp")],observe="LeakSanitizer, AddressSanitizer, resident size")
p("C19","The C interface reports exactly what the C++ interface reports",
 "For the same reaction, energy, time, window and random sequence, every value obtained through the C interface equals the value of the corresponding C++ query, for fragments, prompt neutrons, photons and pre-fission neutrons, in both the laboratory and the centre-of-mass frame, and for every index.",
 ["inputs","histories"],EVT,"No test uses the C interface.",
 [S+"cgmfEvents_capi.cpp",I+"cgmfEvents_capi.h",I+"cgmfEvents.h"],[("wrapper functions","cgmfEvents_capi.cpp")],observe="return values")
p("C20","History and yields files say what the events are",
 "Every line the program writes to a history or yields file corresponds to the event generated for that event number: same order, fragments, energies, spins, momenta, particles, directions and ages, rounded as documented, with neutron, photon and pre-fission multiplicities matching the lists that follow. The file holds exactly the requested number of events, the header states the target, energy and window used, and the printed summary averages equal the averages of the file.",
 ["inputs","histories","configurations"],"every reaction, energy, number of events, starting event, window and output option",REF+".",
 ["utils/cgmf/cgmf.cpp",S+"cgmfEvents.cpp"],[("history writer","utils/cgmf/cgmf.cpp recordEvent, printSummaryEvents"),("yields writer","cgmfEvents.cpp / FissionFragments.cpp")],observe="output files and stdout")
p("C21","The Python toolkit reads history and yields files faithfully",
 "For every well-formed history or yields file, the toolkit returns exactly the events in the file, in order, with every fragment, neutron, photon and pre-fission neutron quantity attached to the right fragment and event, and reading only the first n events returns the first n. Light and heavy fragments are never exchanged, including events without neutrons or photons.",
 ["inputs"],"every well-formed file, including empty particle lists, many particles, pre-fission neutrons and files with or without a time column","Tests read two files and check only the number of events and fragments.",
 ["tools/CGMFtk/histories.py","tools/CGMFtk/yields.py"],[("parser","histories.py _readHistoryFile; yields.py")],observe="toolkit accessors")
p("C22","The Python toolkit's averages and spectra equal their definitions",
 "For every history, each average, multiplicity distribution, spectrum, mean energy, mass or kinetic-energy dependent mean, angular correlation and isomeric ratio the toolkit returns equals the one computed from its definition over the events of the file, with energy thresholds, fragment selection and time windows applied as documented. Distributions and spectra are normalised.",
 ["inputs"],"every history file, threshold, binning, fragment selection and time window","Tests check a few averages on one file.",
 ["tools/CGMFtk/histories.py","tools/CGMFtk/yields.py"],[("statistics","histories.py methods")],observe="toolkit return values")
p("C23","Nuclear data are served as tabulated",
 "Mass excesses, deformations, temperatures, level-density parameters, discrete levels with their spins, parities, half-lives and branchings, and yield-model parameters used by the code are those in the data files for that very nucleus, interpolated as documented, for every nucleus and in any order of requests. Separation energies and Q-values derived from them are consistent with one another. A table of masses, deformations, temperatures, level densities, levels, temperature ratios, anisotropies, spins or pre-equilibrium parameters found in the working directory takes the place of the installed one. A level listed without photons decays with equal weights to the lower levels it can reach by electric dipole or, failing that, to the lowest level of closest spin.",
 ["inputs","histories"],"every nucleus in the tables and every order of requests",REF+"; a handful of nuclei.",
 [S+"masstable.cpp",S+"ripl2levels.cpp",S+"FissionFragments.cpp",S+"setup.cpp","data/"],[("mass table","masstable.cpp"),("level file","ripl2levels.cpp"),("deformation, temperature, LDP tables","FissionFragments.cpp, setup.cpp")],observe="data queries")
p("C24","Numerical and nuclear-model kernels are accurate",
 "The special functions and interpolation routines equal their mathematical values over the range used; optical-model transmission coefficients lie between 0 and 1 and satisfy unitarity; level densities and gamma-ray strengths are positive and equal their published formulas; the probabilities of all photon and neutron transitions of an excited state follow the Hauser-Feshbach formula with spin and parity conserved, and sum to one; and the pre-equilibrium neutron spectrum is a normalised distribution within the available energy.",
 ["inputs"],"every argument in the range used for fission fragments","No test calls a kernel directly.",
 [S+"etc.cpp",S+"omcalc.cpp",S+"levden.cpp",S+"gdr.cpp",S+"gtrans.cpp",S+"smatrix.cpp"],[("special functions","etc.cpp"),("optical model","omcalc.cpp, smatrix.cpp, asympt.cpp, intwave.cpp, extwave.cpp"),("level density","levden.cpp")],observe="kernel return values")
p("C25","The compound-nucleus decay interface reports the emitted particles",
 "For every supported nucleus and excitation energy, the standalone compound-nucleus decay returns the energies of the neutrons and photons of one decay on its 50-keV grid: every emitted particle of at least 25 keV appears in its energy bin, and no bin is returned in which nothing was emitted. The decay starts at the requested excitation energy (or the nearest level, below the continuum), every step conserves energy including neutron separation energies, and it ends in the ground state. The result depends only on the inputs and the random sequence, not on fission events generated before, and is that of the validated release; nuclei and energies out of range are refused.",
 ["inputs","histories"],"every nucleus, excitation energy, random sequence and preceding calls","No test calls it.",
 [S+"specmain.cpp",S+"specmc.cpp",S+"cgmfEvents.cpp",S+"output.cpp",S+"popinit.cpp"],[("interface","cgmfEvents_capi.cpp cgm, cgmfEvents.cpp cgmEvent constructor"),("cascade","specmc.cpp specMCMain"),("line list","output.cpp cgmGetSpectra")],observe="returned energies; per-transition monitor hook",hook=True)
p("C26","Excitation energy is shared between the fragments by temperature ratio",
 "In every event the total excitation energy is divided between the two fragments so that the ratio of their temperatures is the tabulated ratio R_T for that reaction and heavy-fragment mass (equal temperatures outside the table, a fixed ratio for the reactions without a table), with each fragment's level-density parameter taken at its own excitation energy. The two parts always add up to the total.",
 ["inputs"],EVT,REF+"; a wrong ratio for one reaction or mass region moves neutrons between fragments without breaking any balance.",
 [S+"FissionFragments.cpp","data/rta.dat","data/ldp.dat"],[("sharing","FissionFragments.cpp computeFragmentExcitationEnergy"),("ratio table","FissionFragments.cpp readRTA"),("level-density parameters","FissionFragments.cpp getLDP")],observe="excitation energies of the fragments of events and yields runs")
for x in P:
    assert len(x["title"])<=80,x["id"]
    print(json.dumps(x))
