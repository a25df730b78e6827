import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in (state or [])],
       "mechanism":[dict(zip(("name","where"),m)) for m in mech],"observe_at":observe,"hook_needed":hook}}
    assert len(title)<=80,(id,len(title))
    P.append(d)
M="pxmcmc/mcmc.py"
OPS=["pxmcmc/forward.py","pxmcmc/measurements.py","pxmcmc/transforms.py","pxmcmc/prior.py","pxmcmc/utils.py"]
p("C01","Every MYULA transition is the documented Langevin step",
 "For any forward problem, prior and parameters, each state of a MYULA chain is the previous state moved by the documented proximal Langevin step (shrinkage towards the proximal point by delta/lambda, minus delta times the data-fidelity gradient, plus sqrt(2 delta) times noise). The noise is one fresh standard normal per real parameter (independent real and imaginary parts for complex parameters), used exactly once, and the chain starts from the given point or, without one, from a Laplace draw.",
 ["inputs","configurations","histories"],"all problems (analysis/synthesis, real/complex, scalar/vector/matrix data errors, all measurement operators and priors), all parameters, every step of every chain and every sequence of random draws",
 "Tests call single steps with one fixed problem and compare shapes or a handful of values; they never follow a chain nor tie a transition to the draws that caused it.",
 [M]+OPS,[("MYULA run loop and chain step",M),("gradient of the log posterior","pxmcmc/mcmc.py, pxmcmc/forward.py")],["recorded chain","random draws"])
p("C02","PxMALA decides by the exact Metropolis-Hastings rule",
 "A PxMALA proposal (a Langevin step from the current state with the step size in force) is accepted exactly when a fresh uniform draw falls below the Metropolis-Hastings ratio of the reported log posterior and the two Langevin transition densities, forward and reverse. An accepted proposal becomes the next state and a rejected one leaves the state unchanged, so the chain targets the posterior whose value it reports; every decision is logged once, in order.",
 ["inputs","configurations","histories"],"all problems and parameters, all positions in the chain and all draws, including draws arbitrarily close to the acceptance threshold",
 "Tests check the acceptance helper on mocked values; the joint behaviour of densities, ratio, decision and state update over a chain, and at the threshold, is never exercised.",
 [M]+OPS,[("acceptance step and transition density",M),("PxMALA run loop",M)],["recorded chain","acceptance record","reported log posterior"])
p("C03","Every SK-ROCK transition is the published s-stage recursion",
 "For any number of stages s >= 1, each SK-ROCK transition equals the published stochastic Runge-Kutta-Chebyshev recursion (damping 0.05, coefficients from Chebyshev polynomials of order s) applied to the smoothed log-posterior gradient. One standard normal noise vector is drawn per transition and used in all its stages.",
 ["inputs","configurations","histories"],"all problems, stage counts, step sizes, chain positions and draws",
 "Tests compare coefficients of one configuration; the composed recursion for general s over a chain is not compared with anything.",
 [M]+OPS,[("stage recursion and coefficients",M),("Chebyshev polynomials","pxmcmc/utils.py")],["recorded chain","random draws"])
p("C04","Recording options select rows and never influence the chain",
 "Exactly the requested number of samples is recorded: row j holds the state after burn-in plus j thinning intervals (an interval of 0 means every iteration). Changing burn-in, thinning, the number of samples, which quantities are tracked or the verbosity never changes the underlying chain driven by the same draws, and nothing beyond the requested rows is recorded.",
 ["configurations","histories"],"all combinations of burn-in, thinning, sample count, tracked subset, verbosity and sampler",
 "Tests run one configuration per sampler and check array shapes; they cannot compare a thinned run with the full run of the same draws.",
 [M],[("saving condition of each sampler",M),("tracking arrays",M)],["recorded arrays","console output"])
p("C05","All quantities of a recorded row describe the same state",
 "In every recorded row the predictions are the forward model of the recorded sample, the misfit is the data misfit of these predictions weighted by the inverse data covariance, the prior value is the prior of that sample, and the log posterior is minus half the misfit minus mu times the prior value. This holds for accepted and rejected proposals alike and for every sampler, data-error form and problem type.",
 ["inputs","configurations","histories"],"all problems, samplers, recording configurations and acceptance histories",
 "Tests check shapes of the tracked arrays; stale or mixed rows only show for particular acceptance patterns.",
 [M]+OPS,[("row recording",M),("log posterior evaluation",M),("inverse covariance construction","pxmcmc/forward.py")],["recorded arrays"])
p("C06","An interrupted run keeps a valid prefix and the sampler stays usable",
 "If a run is cut short by any exception, from an operator or asynchronously, the exception reaches the caller unchanged, the rows already recorded equal those of the uninterrupted run with the same draws, rows not reached stay as initialised, and at most the row being written is incomplete. Running the same sampler again then behaves as a complete new run.",
 ["fault_sequences","crash_points","histories"],"every exception type, every interruption point (operator call or source line) of every sampler, followed by further runs",
 "No test interrupts a run or runs a sampler twice.",
 [M],[("run loops: state kept in locals, rows written at saving points only",M)],["exception seen by the caller","recorded arrays"])
p("C07","PxMALA treats failed numerical evaluations as rejections",
 "If evaluating a proposal yields NaN or infinite values, PxMALA rejects that proposal: the state and all recorded values stay those of the last good state, the rejection is logged and counted, and the chain goes on correctly afterwards. Values already recorded and later good proposals are unaffected.",
 ["fault_sequences","inputs"],"every pattern of failing evaluations (which evaluation, which iteration, single or bursts, whole vector or one entry)",
 "No test lets an operator return non-finite values.",
 [M],[("acceptance test: comparisons with NaN are false",M)],["recorded arrays","acceptance record"])
p("C08","A run is determined by the numpy seed alone",
 "With the same inputs and the same seed of numpy's global generator a sampler produces identical results, whatever ran before in the process, whatever the clock, process or hash seed, and whatever read-only activity (building objects, saving, plotting, summarising, transforming) happens between seeding and running. Different seeds give different chains.",
 ["histories","schedules","configurations"],"all histories of package calls before and between seeding and running, any process and time",
 "Tests run each thing once in one process; hidden state and extra draws only show when runs are repeated under different histories.",
 [M,"pxmcmc/saving.py","pxmcmc/plotting.py","pxmcmc/uncertainty.py","pxmcmc/utils.py"],[("all randomness comes from numpy's global generator during a run",M)],["recorded arrays","state of the global generator"])
p("C09","Concurrent chains on shared objects behave as if each ran alone",
 "Several samplers running in threads and sharing the forward operator, prior, parameter object and start point each produce exactly the chain they would produce alone with the same draws, under every interleaving and also when one of them dies. The shared objects and the start point are not modified.",
 ["schedules","fault_sequences"],"every interleaving of two or more chains and every point at which one of them is killed",
 "The tests are single threaded.",
 [M]+OPS,[("operators and priors keep no scratch state; samplers copy what they modify",M)],["recorded arrays","shared objects"])
p("C10","Operators, priors, transforms and helpers are history free",
 "What an operator, prior, transform, measurement or helper function returns depends only on the object's construction and the present argument: not on earlier calls, failed calls, in-place reuse of buffers, changes made to earlier results or calls from other threads. Arguments (also constructor arguments) are never modified, and results already returned never change.",
 ["histories","schedules","inputs"],"every sequence and interleaving of calls on shared objects, with valid and malformed arguments",
 "Tests call each function once or twice on fresh inputs and never look at the arguments afterwards.",
 OPS+["pxmcmc/uncertainty.py"],[("pure evaluation of operators",", ".join(OPS))],["return values","arguments"])
p("C11","A completed save reads back as exactly the sampler's state",
 "When saving returns, the named file holds exactly the quantities the sampler tracks, element for element (also complex values, NaN, partial results of an interrupted run, acceptance and step-size records), plus all run parameters and every extra attribute given, and nothing left over from earlier contents of that file. Saving changes neither the sampler nor any other saved file, also when several threads save to different files or the disk makes short writes.",
 ["histories","schedules","configurations","fault_sequences"],"every sequence of saves and further runs, every tracked subset and set of extras, every pre-existing file content, interleavings of concurrent saves, short and interrupted writes",
 "Tests save one mocked sampler once into an empty directory.",
 ["pxmcmc/saving.py",M],[("dataset and attribute writing","pxmcmc/saving.py")],["file contents read back","files in the directory"])
p("C12","A save that meets an I/O error reports it and damages nothing",
 "If any disk operation fails during a save (I/O error, full disk, permission, too many files), an extra cannot be stored, or the save is interrupted by an exception, then saving raises, and the target file is still what it was before or is the complete new save. A save that returns normally is complete; the process survives, other saved files and the results in memory are untouched, and once the fault is gone the same save succeeds.",
 ["fault_sequences","histories"],"every disk operation of a save failing in every way, once or persistently, at every point of every history of saves",
 "No test makes the disk fail.",
 ["pxmcmc/saving.py"],[("write to a side file, then atomic replace","pxmcmc/saving.py")],["exception from saving","file contents read back"])
p("C13","A process killed while saving never leaves a damaged file",
 "If the process dies at any instant during a save, afterwards the target file is exactly the previous one (or absent if there was none) or the complete new save, and every other saved file is intact. A save that had returned before the kill is there completely, and saving again after a restart works whatever the killed process left behind.",
 ["crash_points","histories"],"every kill point before, inside (torn write) and after every disk operation of a save, after every history of saves and earlier kills",
 "No test kills a process.",
 ["pxmcmc/saving.py"],[("write to a side file, then atomic replace","pxmcmc/saving.py")],["file contents read back after restart"])
p("C14","Silencing console output always ends with the caller's output restored",
 "Whenever no thread is inside a call that silences standard output, standard output is the object the caller installed, whatever nesting, exceptions, failures to open the null device or thread interleavings came before; exceptions pass through unchanged and no thread blocks for ever. Text printed by the silenced code never appears, and text printed while nobody silences always does.",
 ["schedules","fault_sequences","programs"],"all programs of nested and concurrent silenced calls, all exceptions and interleavings",
 "Tests call the wrapped transforms once, in one thread, without failures.",
 ["pxmcmc/utils.py","pxmcmc/plotting.py"],[("silencing context manager","pxmcmc/utils.py")],["sys.stdout","text on the caller's output"])
p("C15","Plotting shows the data in new figures and disturbs nothing else",
 "Each plotting call returns its own new figure (one per scale for wavelet maps) showing the given data, whatever figures the user has open or current, and opens no others. Figures that were open, input arrays, random state, plotting settings and standard output stay as they were, also when the call fails or is interrupted.",
 ["histories","fault_sequences","inputs"],"every sequence of plotting calls, user figure actions, failing and interrupted calls",
 "Tests call each plotting function once and check that it returns a figure.",
 ["pxmcmc/plotting.py"],[("every function makes its own figure","pxmcmc/plotting.py")],["open figures","returned figures"])
p("C16","PxMALA's step size follows the documented adaptation, and only then",
 "With tuning on, after iteration i (from 0) the step size is multiplied by 1 + (a - 1/2)/(i+1)^0.75, a being 1 for an accepted and 0 for a rejected proposal, kept between 1e-8 lambda and lambda/2, and the new value governs the next proposal and its acceptance. The recorded step-size history starts with the initial value and gains one entry per iteration; with tuning off the step size never changes.",
 ["histories","configurations"],"all acceptance histories, including streaks that drive the step size to either limit",
 "Tests check a single update; limits and the coupling to the next proposal need long particular acceptance histories.",
 [M],[("step size tuning",M)],["step-size record","recorded chain"])
p("C17","Experiment programs survive kills and share their files safely",
 "Each experiment program (phase velocity, weak lensing, topography), run to the end, leaves exactly one new results file, named after its job id, whose predictions, misfits, prior values and log posteriors are those of the recorded samples for the input data and whose attributes are the settings of the command line. The path matrix has one row per data line in the order of the data file whatever order the pool workers finish in, and a worker's error reaches the user. A run that is killed or fails damages no earlier results, no input and no path cache: the cache is complete or absent, and repeating the run, or running another job on the same files at the same time, works and gives the samples it gives alone.",
 ["crash_points","fault_sequences","schedules","histories"],"every kill point, disk error, interrupt, worker order and failure, and every history of up to three jobs sharing a data file, a path cache and an output directory, also one job running inside another",
 "No test runs the experiment programs at all.",
 ["experiments/phasevel/main.py","experiments/weaklensing/main.py","experiments/earthtopography/main.py","pxmcmc/saving.py"],[("path matrix cache and pool","experiments/phasevel/main.py"),("saving of results","pxmcmc/saving.py")],["results files","path cache","exit of the program"])
p("C18","Plot programs report the recorded samples and touch nothing else",
 "Each experiment's plot program, given a results file of that experiment's main program and a burn-in shorter than the chain, reports what the recorded samples say: the maximum a posteriori map is the recorded sample of highest log posterior, mean and credible interval ranges are those of the samples after the burn-in, differences, signal-to-noise ratios and prediction errors follow from them and the ground truth, the evolution shows the recorded traces, and saved arrays hold the same maps. It only writes its own pictures and arrays (directory and suffix as asked): results files, inputs, caches and other plots stay as they are, also when it is killed, interrupted or meets a disk error. It never ends well with a picture or array missing, incomplete or wrong, and repeating a request, or serving it beside another request or a running job, works and gives the same.",
 ["crash_points","fault_sequences","schedules","histories","configurations"],"every results file the main programs leave, every request, kill point, disk error (reading too) and interrupt, and every pair of requests or request and job at the same time",
 "No test runs the plot programs at all.",
 ["experiments/phasevel/plot.py","experiments/weaklensing/plot.py","experiments/earthtopography/plot.py","pxmcmc/uncertainty.py","pxmcmc/plotting.py"],[("summaries of the chain","experiments/*/plot.py"),("credible intervals","pxmcmc/uncertainty.py")],["data handed to the figures","pictures and arrays on disk","printed numbers","other files"])
p("C19","The lensing map download is complete or absent, and repeatable",
 "The downloader of the simulated lensing map ends well only when the map file holds exactly the convergence values the server's file holds; at every moment that file is complete or absent, and once complete it stays. However the network misbehaves (refused, error pages, cut connections, timeouts) and wherever a run is killed, interrupted or meets a disk error or a full disk, a later undisturbed run makes the map, and a run beside another one works too. What has been downloaded or converted completely is not downloaded again, and other files in the directory are left alone.",
 ["crash_points","fault_sequences","schedules","histories"],"every network fault, kill point, disk error, full disk and interrupt, in every history of up to five runs, also two runs at the same time",
 "No test runs the downloader.",
 ["experiments/weaklensing/download_takahasi.py"],[("download and conversion","experiments/weaklensing/download_takahasi.py")],["map file","exit of the program","requests made"])
NA=[
 ("C20","Operators and their adjoints are consistent","For every measurement and transform, the adjoint is the exact adjoint of the forward map.",["inputs"],["pxmcmc/measurements.py","pxmcmc/transforms.py"],"pure linear-algebra identity of a single call: no schedule, clock, fault, I/O or history enters it (its effect on chains is judged through the dense references of C01, C02, C03 and C05)"),
 ("C21","Wavelet synthesis inverts wavelet analysis","Analysing a band-limited map and synthesising it again returns the map.",["inputs"],["pxmcmc/transforms.py"],"pure function of its input, computed inside pys2let; nothing for a scheduler or fault to act on"),
 ("C22","Proximal maps minimise their prior","The proximal map of each prior is the minimiser of prior plus quadratic proximity, in analysis and synthesis setting.",["inputs"],["pxmcmc/prior.py","pxmcmc/utils.py"],"pure function of its input; deciding it needs input generation or proof, not simulation (chains are compared with an independent soft threshold in C01-C03)"),
 ("C23","Sampling weights integrate band-limited functions exactly","Quadrature weights and pixel areas integrate band-limited functions on the sphere exactly and sum to the sphere's area.",["inputs"],["pxmcmc/utils.py"],"pure function of the bandlimit; no nondeterminism or fault"),
 ("C24","Flattening and expanding coefficients are inverse","Flattening wavelet and scaling coefficients and expanding them again returns the same arrays for every layout.",["inputs"],["pxmcmc/utils.py"],"pure function of its input; no nondeterminism or fault"),
 ("C25","Credible intervals and regions cover the requested mass","Credible interval ranges and region thresholds are the stated quantiles of the samples.",["inputs"],["pxmcmc/uncertainty.py"],"pure function of the sample array; no nondeterminism or fault"),
 ("C26","Lensing kernels and mass-mapping estimators are inverse","The harmonic lensing kernels follow the published formula and the Kaiser-Squires estimate inverts noiseless full-sky data.",["inputs"],["pxmcmc/measurements.py"],"pure function of its input; no nondeterminism or fault"),
]
for id,title,st,over,files,reason in NA:
    p(id,title,st,over,"all inputs","Tests sample a few inputs.",files,[("direct computation",files[0])],["return values"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import importlib,sys
sys.path.insert(0,"/verif")
import re
checks=[]
notes={"exploration":"Seeded search over simulated runs of the real code: a clean batch is evidence for the runs made, not proof.",
"fault_enumeration":"Seeded search over fault positions and kinds on the real code, every fault kind at every class of position; evidence for the runs made, not proof."}
extra={"C01":"Reference: dense matrices and soft thresholding written independently; draws intercepted at numpy/scipy.","C02":"Uniforms are steered to just either side of the reference ratio, so every decision is tested at its threshold.",
"C03":"Reference recursion written iteratively from the publication.","C04":"Pairs of runs on the same draws.","C05":"Rows recomputed from the recorded sample with the dense reference; complex data use the package's own variance convention.",
"C06":"Interruption at operator calls and at source lines, twin run on the same draws.","C07":"Evaluations spoilt with NaN/inf after initialisation.","C08":"Clock, process, hash seed and history disturbed; bitwise comparison within a process.",
"C09":"Line- and bytecode-level seeded schedules of real threads; C extensions are atomic.","C10":"Every call compared with the same call on a new object.","C11":"Real HDF5 on a simulated disk with transparent faults only.",
"C12":"Every operation of a save can fail; forked process per save.","C13":"All kill points of each generated save (up to 40); process death, not power loss.","C14":"Null-device failures and exceptions from the silenced code; asynchronous interrupts inside the silencing code itself are excluded.",
"C15":"Projection resolution reduced; single thread, as pyplot requires.","C16":"Acceptance streaks forced through the draws.","C17":"The real programs in forked processes on a simulated disk; chain lengths shortened; pool replaced by a seeded one.","C18":"The real programs in forked processes on a simulated disk; map drawing replaced by recorders of its data.","C19":"The real script in forked processes on a simulated disk and network (requests and tqdm are not installed here; their part in use is modelled)."}
for d in P:
    i=d["id"]
    if int(i[1:])>=20: continue
    src=open(f"/verif/sim/props/{i.lower()}.py").read()
    lev=re.search(r'^LEVEL = "(\w+)"',src,re.M).group(1)
    checks.append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {i}","technique":"deterministic simulation with fault injection (seeded search over schedules, draws and faults, checked against a reference model)","level":lev,"level_note":notes[lev]+" "+extra[i]})
man={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":[{"property":n[0],"reason":n[5]} for n in NA],
"notes":"No hooks were needed in /repo: the seams are numpy's random module, healpy/pyssht entry points, file opening, source-line tracing, locks, and an LD_PRELOAD disk layer, all installed from /verif at run time."}
json.dump(man,open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
F=[("C12","60232f6","a write error while HDF5 closed a small dataset was swallowed and save_mcmc returned with zeros in the file; a full disk could crash the interpreter"),
("C13","60232f6","a save killed or failing midway left a truncated file under the final name, after destroying the previous save"),
("C02","60ad86c","the proposal density used in the acceptance ratio was not the density of the Langevin proposal"),
("C05","233786f","the reported log posterior was not minus half the misfit minus mu times the prior"),
("C04","37e564e","PxMALA recorded at thinning points only if the proposal was accepted, so rows were missing or shifted"),
("C03","058f2f0","the SK-ROCK stage recursion differed from the published one"),
("C04","640fc84","printing progress failed when a printed quantity was not tracked"),
("C05","dc55cb4","predictions of complex data were recorded as real numbers"),
("C10","685b737","the wavelet priors modified the threshold array given by the caller"),
("C05","62dfc2f","a full covariance matrix as data error gave a wrong inverse covariance"),
("C14","e69e445","concurrent silenced calls left sys.stdout on a closed null device"),
("C15","789db76","mollview drew into a figure of the user instead of its own"),
("C15","dbfbb6b","plot_map failed with current matplotlib (removed colour map accessor)"),
("C15","2519bbc","plot_map wrote the mask into the caller's map"),
("C05","81bd786","the power-weighted wavelet prior could not be evaluated when all scales share a bandlimit"),
("C15","bb5ebf8","plot_evolution failed when the best sample had been saved more than once"),
("C17","1a6bb14","a phase velocity run killed while writing the path matrix left a cache that made every later run fail, and jobs started at the same time could read half a cache"),
("C17","787e8f6","a data file with a single path could not be read"),
("C18","f97bc7d","the topography plot program ended with an error when asked for its summary maps as arrays"),
("C18","916ef59","the topography plot program ended with an error on results with added noise"),
("C18","a7c4f6e","the weak lensing plot program ended with an error at its credible interval map"),
("C18","8413422","the phase velocity plot program ended with an error for a data file with a single path"),
("C19","0a3e430","a killed, cut or refused download (also an error page) was kept under the final name, and every later run failed on it"),
("C19","174eafc","a killed conversion left output.fits, which stopped every later conversion; two conversions at once shared it"),
("C05","aea9fe6","with complex data the inverse covariance was complex, so the drift was not the gradient of the reported log posterior"),
("C05","98686cf","with complex data and real parameters the chain became complex and the recorded samples (its real part) did not belong to the recorded predictions, misfit and prior"),
("C16","e541350","with an analysis prior on real parameters the proximal step left a rounding-size imaginary part in the state that grew from step to step in long chains"),
("C15","b51e940","plot_wavelet_maps failed without oversampling"),
]
with open("/verif/KNOWN_FINDINGS.jsonl","w") as f:
    for a,b,c in F: f.write(json.dumps({"status":"fixed","property":a,"commit":b,"what":c,"line":f"fixed: property={a} {b} {c}"})+"\n")
