"""Source of properties.jsonl and MANIFEST.json: run `python3 spec/props.py` in /verif to regenerate both."""
import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
S = "src/gym_electric_motor/"
PS = S + "physical_systems/"
EM = PS + "electric_motors/"
ML = PS + "mechanical_loads/"
RG = S + "reference_generators/"
PW = S + "physical_system_wrappers/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


prop("C01", "Environments follow the reset/step protocol",
     "An environment can be stepped exactly after a reset and until it reports termination; a step before the first reset, after "
     "termination, or after its reference generator or reward function was exchanged is refused, and any later reset makes it usable again. "
     "Every reset returns (observation, info) and every step (observation, reward, terminated, truncated, info), the observation being the "
     "selected states in the requested order together with the next reference, in the declared structure and within the declared spaces as long "
     "as the limits are kept. The step counter and the time grow by exactly one sampling interval per step and restart with every reset.",
     ["histories", "configurations"],
     "every sequence of reset / step(in-limit action) / step(limit-violating action) / seeded reset / component exchange up to a depth, for every motor family, discrete and continuous action spaces, every state filter of a lattice",
     "The tests check single calls with mocked components; no test drives interleavings of resets, terminations and exchanges on real environments.",
     [S + "core.py"], [("terminated flag and assertion", S + "core.py step/reset/reference_generator setter/reward_function setter"),
                       ("state filter", S + "core.py __init__/reset/step")], ["return values of reset and step"])
prop("C02", "Equal seeds give equal experiments",
     "Two equally configured environments that are reset with the same seed and receive the same actions produce bit-identical states, references, "
     "rewards and terminations, over any number of later unseeded resets, no matter what was done with either environment before that seeded reset. "
     "Different seeds give different random sequences, and no component draws from a global random generator.",
     ["histories", "configurations", "inputs"],
     "every random component (initial states, loads, supplies, reference generators, wrappers), combined and alone, every usage history before the seeded reset up to a depth, several seeds, global generator perturbed in between",
     "Existing tests seed one component with a mock and look at one draw; they do not vary the history before the seeded reset.",
     [S + "random_component.py", S + "core.py", RG, PW, PS], [("seed spawning", S + "core.py ElectricMotorEnvironment._seed"),
      ("per-episode generators", S + "random_component.py seed/next_generator")], ["observations, rewards of seeded episodes"])
prop("C03", "Episode n of a seeded run does not depend on earlier behaviour",
     "After a seeded reset the random content of the n-th episode (initial state, reference trajectory, load and supply randomness, noise) depends only on the seed, "
     "the configuration and n, not on how long the earlier episodes were or which actions were played in them. Consecutive episodes still differ from each other.",
     ["histories"], "all tuples of earlier episode lengths from a set covering 0, 1, sub-episode and buffer boundaries, all random components",
     "Tests never compare runs with different earlier episode lengths.",
     [S + "random_component.py", RG], [("next_generator at reset", S + "random_component.py"), ("reset of reference generators", RG + "subepisoded_reference_generator.py")],
     ["initial observation and references of later episodes"])
prop("C04", "Environments do not influence each other or the caller's arguments",
     "Using one environment never changes the behaviour of another environment in the same process, whatever the interleaving of their constructions, seeds, resets and steps, "
     "and a newly constructed environment behaves the same regardless of which other environments were built or used before. "
     "Objects handed over by the user (parameter dictionaries, lists, action arrays) are never modified, and returned arrays are not changed by later calls.",
     ["histories", "configurations"], "all interleavings (bounded) of two environments' construct/reset/step scripts for every motor family; all user dictionaries of all components",
     "Unit tests run each object alone in a fresh state; shared class attributes or buffers stay invisible.",
     [EM, ML, PS, S + "core.py"], [("per-instance parameter copies", EM + "electric_motor.py"), ("class-level default dicts", ML)], ["trajectories"])
prop("C05", "A reset leaves no residue of the past episode",
     "After a reset an environment without random components reproduces exactly the trajectory of a freshly constructed environment for the same actions, whatever actions, terminations and resets happened before. "
     "This holds for every converter state, supply, load, solver, wrapper, reference generator and reward function.",
     ["histories", "configurations"], "all prefix action histories up to a depth (including ones that end in a limit violation) for every motor family, converter type, supply, solver, wrapper",
     "Tests call reset once on fresh objects; the residue of a history needs a history.",
     [PS, PW, RG], [("reset chain", PS + "physical_systems.py reset"), ("converter reset", PS + "converters.py reset")], ["trajectories after reset"])
prop("C06", "Switched converters realise the commanded switching states",
     "For every action history, every switched converter outputs in each segment of the control interval the voltage of the commanded switching state for the present current direction; "
     "a half bridge that changes between its two transistors is first blanked for exactly the interlocking time, during which the current direction determines the voltage, and every other half bridge and every other sub-converter is unaffected. "
     "The returned switching times end with the end of the interval, and actions outside the action space are refused.",
     ["histories", "inputs"], "all action sequences up to a depth, all current sign patterns per segment, several interlocking times, nested and multi converters, reset in between",
     "Tests check tabulated single actions mostly with mocked sub-converters; the output depends on the history.",
     [PS + "converters.py"], [("switching pattern", "converters.py _set_switching_pattern / convert")], ["set_action and convert results"])
prop("C07", "Averaged converters realise the commanded duty cycle",
     "For every duty cycle inside the action space an averaged converter outputs the documented mean voltage minus/plus the documented interlocking loss for the current direction, within its voltage range; "
     "commands outside the range are limited, and the results depend only on the last command and the present current. Multi converters act as their independent parts.",
     ["inputs", "histories"], "lattice of duty cycles including bounds and values outside, all current signs, interlocking times, command histories up to a depth",
     "Tests compare a handful of duty cycles with mocked parts.", [PS + "converters.py"],
     [("convert of Cont* converters", "converters.py")], ["convert results"])
prop("C08", "Converters conserve power and averaged equals mean of switched",
     "In every reached switching state or duty cycle the power an ideal converter takes from its supply equals the power it delivers to the motor. "
     "The mean output voltage of a switched converter over a periodic pattern equals the output of the averaged converter at the corresponding duty cycle, including the interlocking loss.",
     ["histories", "inputs"], "all action histories up to a depth, all duty cycles of a lattice, all patterns with one upper interval in N slots",
     "No test relates input current and output voltage or the two converter models.", [PS + "converters.py"],
     [("i_sup", "converters.py"), ("convert", "converters.py")], ["convert and i_sup"])
prop("C09", "Voltage supplies follow their documented source",
     "An ideal supply always returns its nominal voltage; the RC supply follows the documented first-order circuit for every load current history and time grid, starting from the nominal voltage after every reset; "
     "single- and three-phase AC supplies return symmetric sinusoids of the documented amplitude, frequency and phase at every time, with random or fixed initial phase. "
     "Each supply voltage stays within its declared range for admissible loads.",
     ["histories", "inputs"], "all current histories over a small alphabet up to a depth, several step grids and parameters, a lattice of times",
     "Tests check one or two calls with fixed time and current.", [PS + "voltage_supplies.py"],
     [("RC Euler step", "voltage_supplies.py RCVoltageSupply"), ("AC supplies", "voltage_supplies.py AC1PhaseSupply/AC3PhaseSupply")], ["get_voltage"])
prop("C10", "One control step simulates converter, supply, motor and load together",
     "For every action sequence the state after each step equals what an independent textbook simulation of the same drive computes: the action is converted to switching states with blanking segments, multiplied with the supply voltage of that time, applied to the motor equations, "
     "coupled with the load torque, and integrated over exactly one sampling interval. Reported currents, torque, speed and angle belong to the end of the step, and reported voltages are those applied to the motor.",
     ["histories", "configurations"], "all action sequences up to a depth for all motor families, switched and averaged converters, with and without interlocking, ideal/RC/AC supplies, abc and dq action frames, several loads and sub-step counts",
     "Tests mock the motor, converter and solver or check one step; wrong wiring between correct parts or segments is invisible.",
     [PS + "physical_systems.py", PS + "solvers.py", PS + "converters.py"], [("simulate", "physical_systems.py DcMotorSystem/SynchronousMotorSystem/... .simulate")], ["state returned by simulate/step"])
prop("C11", "Motor models are the textbook machines",
     "For every state, input voltage and speed the motor models return exactly the textbook derivative and torque of the machine with the configured parameters, for every admissible parameter set; "
     "and electrical power in equals copper losses plus stored-energy change plus mechanical power. Parameter dictionaries replace exactly the named entries.",
     ["inputs", "configurations"], "lattice over signs and magnitudes of all states, inputs, speeds, and parameter sets for all nine machines",
     "Tests evaluate each equation at a few sampled points against a copy of the same formula.", [EM],
     [("electrical_ode", EM), ("torque", EM)], ["electrical_ode, torque"])
prop("C12", "Jacobians are the derivatives of the system equations",
     "For every motor and load and for the complete drive, the Jacobian handed to implicit solvers is the matrix of partial derivatives of the system equation at every state.",
     ["inputs", "configurations"], "same lattice as for the motor equations, away from the documented discontinuities",
     "Tests compare the Jacobian with a re-typed matrix at sampled points; wrong entries present in both stay.",
     [EM, ML, PS + "physical_systems.py"], [("electrical_jacobian", EM), ("mechanical_jacobian", ML), ("_system_jacobian", PS + "physical_systems.py")], ["jacobians"])
prop("C13", "All quantities of a state vector describe one and the same physical state",
     "In every state returned by reset or step, phase and field-oriented quantities are transforms of each other at the reported rotor angle, the reported torque is the machine's torque at the reported currents and fluxes, the angle is wrapped and consistent with the speed, "
     "and each entry is the physical value divided by its limit, in the order of the announced state names. Limits and nominal values are positive and finite, the default nominal values do not exceed the limits, and the normalised state space is declared accordingly.",
     ["histories", "configurations"], "all action sequences up to a depth, from several initial states, for every motor family and both action types",
     "Tests construct single states with mocks; consistency between entries over a trajectory is not examined.",
     [PS + "physical_systems.py", EM], [("state assembly", "physical_systems.py simulate/reset/_build_state*")], ["state vectors"])
prop("C14", "Mechanical loads obey the law of motion they document",
     "For every speed, motor torque and time the speed derivative equals (motor torque - load torque)/total inertia with the documented load torque; the static load brakes both directions symmetrically and never drives a stopped machine; "
     "constant speed loads keep the speed, external speed profiles are followed at every control step (exactly when the motor is integrated in one step per control step), and random speeds stay in their range.",
     ["inputs", "configurations", "histories"], "lattice of speeds (including zero and the linear region), torques, parameters; all profiles of a set; all step counts up to a bound",
     "Tests cover sampled speeds against copies of the formulas.", [ML], [("mechanical_ode", ML)], ["mechanical_ode, simulated speed"])
prop("C15", "Constraint violations terminate exactly when they occur",
     "The environment terminates in exactly those steps whose state violates an observed constraint: a limit constraint is violated iff an observed normalised state exceeds one in magnitude, a squared constraint iff the sum of squares exceeds one. "
     "Custom constraints and merge rules combine violation degrees into one degree in [0, 1] as documented, and unobserved states never terminate an episode.",
     ["inputs", "configurations", "histories"], "full lattice of state vectors around the limits for every subset of observed states, all merge rules, all degree tuples; and all action sequences on real environments",
     "Tests check few states per constraint.", [S + "constraints.py", S + "constraint_monitor.py", S + "core.py"],
     [("check_constraints", S + "constraint_monitor.py"), ("termination", S + "core.py step")], ["terminated flag, violation degree"])
prop("C16", "The reward is the documented weighted error and stays in its range",
     "Every reward equals the weighted sum of the powered, length-normalised absolute reference errors plus bias for unviolated states, and the violation reward blended by the violation degree otherwise. "
     "For states and references inside the state space it never leaves the announced reward range, it is maximal at zero error, does not increase with any error, and default violation rewards are never better than any episode that continues.",
     ["inputs", "configurations"], "lattice of states, references, violation degrees and all weight/power/bias/gamma configurations of a set",
     "Tests check fixed vectors with mocked systems.", [S + "reward_functions/weighted_sum_of_errors.py", S + "utils.py"],
     [("reward", S + "reward_functions/weighted_sum_of_errors.py"), ("set_state_array", S + "utils.py")], ["reward values"])
prop("C17", "Reference of the reward is the reference that was shown to the agent",
     "The next-reference observed after step k is exactly the reference that the reward and callbacks of step k+1 use, for every referenced state, at that state's position; non-referenced entries are neutral. "
     "This holds across sub-episode changes, switches between generators, and combined generators, and the announced reference names, space and observation have the same length and order.",
     ["histories", "configurations"], "every reference generator and combination, all step counts through several sub-episode and switch boundaries, all reset positions up to a bound",
     "Tests check single generator calls against internals.", [RG, S + "core.py"],
     [("get_reference/get_reference_observation", RG), ("step order", S + "core.py step")], ["reference observation, rewards, callbacks"])
prop("C18", "References stay inside their announced range and follow their announced shape",
     "At every step every generated reference lies inside the announced limits (margin) and the announced reference space; sub-episode lengths lie in their configured ranges, "
     "and waveforms have the configured amplitude, frequency and offset ranges. The initial reference after a reset is the one passed to the reset, otherwise an admissible one (or the default of zero).",
     ["histories", "configurations", "inputs"], "all generator types x margin configurations x extreme corners of the random draws (all draw outcomes of a lattice), full sub-episodes",
     "Tests sample a few seeds; extreme draws are not reached.", [RG],
     [("clipping/margins", RG + "*"), ("sub-episode length", RG + "subepisoded_reference_generator.py")], ["reference values"])
prop("C19", "Dead time delays actions by exactly the configured steps",
     "With a dead time of n steps the action given at step k acts at step k+n and the first n steps after every reset use the reset action, for every action space, for nested delays adding up, and for callers that reuse their action buffer. "
     "Everything else equals the undelayed system.",
     ["histories", "configurations"], "all action sequences up to a depth for n = 0..4, all action spaces, resets at every position",
     "Tests check one FIFO sequence with mocks.", [PW + "dead_time_processor.py"], [("action deque", PW + "dead_time_processor.py")], ["trajectories"])
prop("C20", "Physical system wrappers add only what they announce",
     "Any stack of wrappers leaves the wrapped dynamics untouched and appends or modifies only the announced states, at reset and at every step; names, limits, nominal values, state space and returned vector always have the same length and order, "
     "and every added state has its documented value (cosine/sine of the angle, sum of physical currents, estimated flux, bounded noise on the selected states only).",
     ["configurations", "histories"], "all ordered stacks of wrappers up to a depth on every compatible motor family, all action sequences up to a depth",
     "Tests exercise each wrapper alone around a mock.", [PW], [("wrappers", PW + "*")], ["state vectors, names, limits, spaces"])
prop("C21", "Initial states are the configured ones",
     "After every reset the reported state shows the configured constant initial values of motor and load at their own positions, or random values from the configured distribution inside the configured interval and inside the nominal/limit range. "
     "Derived quantities (torque, phase currents) match these values.",
     ["configurations", "histories", "inputs"], "all motor families and loads, all subsets of configured initial states, constant/uniform/gaussian, several intervals and seeds, several resets",
     "Tests check internals of initializers for few configurations, not the reported state.", [EM, ML, PS + "physical_systems.py"],
     [("initialize", EM + "electric_motor.py"), ("reset", PS + "physical_systems.py")], ["reset observation"])
prop("C22", "Callbacks see every event once, in order, with the true values",
     "For any sequence of resets and steps every callback (and visualisation) receives reset-begin, reset-end, step-begin and step-end exactly once per event, in that order, with the values the environment returns, in registration order. "
     "The ramping limit margin callbacks change the reference margin exactly by their documented ramp.",
     ["histories"], "all event sequences up to a depth, several callbacks, all ramp parameters of a lattice", "Tests count calls in one fixed run.",
     [S + "core.py", S + "callbacks.py"], [("_call_callbacks", S + "core.py"), ("RampingLimitMargin", S + "callbacks.py")], ["callback arguments"])
prop("C23", "Every registered environment is usable as announced",
     "Each registered environment id can be created and run: its action space type and motor match its id, the controlled quantity (current, torque, speed) matches its id, "
     "all observations and rewards are finite and of the declared shapes for all action sequences, and the limits of currents, torque and speed observed as constraints terminate it. "
     "Its default supply fits its default motor: no action drives an observed voltage out of the announced space. Components given as documented keyword arguments (instances or dictionaries) replace exactly the default they stand for.",
     ["configurations", "histories"], "all registered ids, all short action sequences over the corner actions", "Tests check few ids for few steps.",
     [S + "__init__.py", S + "envs"], [("registration", S + "__init__.py"), ("env defaults", S + "envs/*")], ["env attributes and trajectories"])
prop("C24", "Solvers integrate the same equation and are interchangeable",
     "Every ODE solver integrates exactly the given equation from its own time and value to exactly the requested time with piecewise constant inputs, agreeing with the exact solution within its order; "
     "a changed input takes effect from the current time on and never earlier, and setting an initial value discards all history.",
     ["histories", "configurations"], "all solver types, all input sequences up to a depth, all sub-step numbers, uneven time grids, resets at every position",
     "Tests integrate one system once.", [PS + "solvers.py"], [("solvers", PS + "solvers.py")], ["integrate results"])
prop("C25", "Coordinate transformations are exact inverses, dq actions mean dq voltages",
     "Phase, alpha-beta and dq transformations are mutually inverse, amplitude preserving and rotation-consistent at all angles, without altering their arguments. "
     "Continuous actions given in field-oriented coordinates result in the same motor voltages in rotor coordinates (within the modulation range), including the documented angle advance.",
     ["inputs", "histories"], "lattice of vectors and angles (all sectors and wrap-arounds), all action sequences up to a depth for each machine type",
     "Tests sample few vectors.", [EM + "three_phase_motor.py", PW + "dq_to_abc_action_processor.py", PS + "physical_systems.py"],
     [("t_23, t_32, q, q_inv", EM + "three_phase_motor.py"), ("dq to abc", PW + "dq_to_abc_action_processor.py")], ["transform results, voltages"])
prop("C26", "Library controllers command admissible actions by their control law",
     "Every controller that GemController.make builds (DC machines with continuous or finite converters; PMSM, SynRM, SCIM and EESM with continuous ones) returns, from a reset and after any history of observations, a finite action inside the action space of its environment without changing its arguments. "
     "Torque and current references inside the cascade never exceed the limits less the safety margin, integrators stop while the output is clipped, and the voltages follow the control law: "
     "P/PI/PID (or three-point) feedback on the error with the gains of the design parameter, emf compensation by the machine equations at the electrical speed if decoupling is on, limitation that keeps the direction of voltage vectors, and the transformation to phases at the advanced angle. "
     "After a reset a controller behaves like a newly built one, and controllers do not influence each other.",
     ["histories", "inputs", "configurations"], "all buildable controllers, lattice of observations, all short call histories", "The existing tests contain no tests of the controllers.",
     ["src/gem_controllers"], [("clipping stages", "src/gem_controllers/stages/clipping_stages"), ("anti windup", "src/gem_controllers/stages/anti_windup.py"), ("base controllers", "src/gem_controllers/stages/base_controllers"), ("output stages", "src/gem_controllers/stages")], ["control actions", "internal references"])
prop("C27", "Library controllers drive the machine to the reference",
     "A default PI controller of GemController.make in closed loop with its registered environment reaches every reference current, torque or speed that the machine can reach within its voltage and current limits, "
     "after steps between any two such references, at any such constant speed, without ever violating a limit; continuous converters settle to it (torque of three-phase machines up to the resolution of the lookup tables), finite ones in the mean.",
     ["configurations", "histories"], "registered environments of all buildable controllers, all ordered pairs of a lattice of constant references, several constant speeds", "There is no closed loop test.",
     ["src/gem_controllers"], [("tuning", "src/gem_controllers/parameter_reader.py"), ("operation point selection", "src/gem_controllers/stages/operation_point_selection"), ("cascade", "src/gem_controllers/torque_controller.py")], ["tracking error"])
prop("C28", "Environments in different threads do not interact",
     "Independent environments used concurrently from different threads produce the same trajectories as when used one after the other, for every interleaving of their calls.",
     ["schedules"], "all interleavings of two threads at function-call granularity with a bounded number of preemptions", "Tests are single threaded.",
     [PS, EM, ML, S + "core.py"], [("per-instance buffers", EM), ("no module state", S)], ["trajectories"])
prop("C29", "Visualisations are passive and show the true data",
     "Attaching visualisations never changes states, references, rewards, terminations or random sequences; and the plotted data are the states, references, actions and rewards of the episode, in physical units, at their times, inside the shown window.",
     ["histories", "configurations"], "all sets of plots, all event sequences up to a depth crossing the plot window and episode boundaries", "Tests mock matplotlib and check calls.",
     [S + "visualization"], [("dashboard callbacks", S + "visualization/motor_dashboard.py"), ("plots", S + "visualization/motor_dashboard_plots")], ["trajectories, plot buffers"])
prop("C30", "The control loop couples controllers and environments correctly",
     "GemController.make builds a controller for an environment as returned by gem.make (wrapped or not, with any visualization) without changing what the environment does. control_environment(env, n_steps, max_episode_length, render_env) performs exactly n_steps steps, "
     "resets environment and controller together at its begin, after every terminated or truncated step and as soon as an episode (the first one as well) has max_episode_length steps, and never else; every step gets exactly the action the controller yields for the latest observation; "
     "it renders once per step iff render_env is set. Controllers do not influence each other, their options neither. With should_plot, the dashboards show the references of the subordinate stages as the controller chose them iff plot_references is set, before and after the first rendering; the own references of the environment stay as they are.",
     ["histories", "inputs", "configurations"], "all patterns of episode ends up to a depth, episode lengths, numbers of steps, plot options", "There are no tests of the control loop.",
     ["src/gem_controllers"], [("control_environment, make", "src/gem_controllers/gem_controller.py"), ("adapter", "src/gem_controllers/gem_adapter.py"), ("reference plotter", "src/gem_controllers/reference_plotter.py")], ["calls of the environment, actions, drawn lines"])
prop("C31", "Operating points deliver the torque with minimal current within limits",
     "For every torque reference and speed (both signs), the torque controllers (operation point selection) of PMSM, SynRM and EESM choose finite currents within the current limits less the safety margin, whose flux linkage stays within the flux that the voltage limit and the modulation controller allow at this speed, "
     "and which yield the demanded torque if such currents exist, else the greatest torque possible (up to the resolution of the lookup tables); for PMSM and SynRM no smaller current amplitude does so. Points are symmetrical in the sign of torque and of speed. "
     "For the SCIM the flux demand is the loss optimum within the voltage limit and never more torque than demanded is commanded. The modulation controller lowers the flux with the persistent modulation level; after a reset the points depend on the calls since the reset only.",
     ["inputs", "histories", "configurations"], "lattice of torque references, speeds, machine parameters and margins; all sequences of modulation levels up to a depth", "There are no tests of the operation point selections.",
     ["src/gem_controllers"], [("operation point selections", "src/gem_controllers/stages/operation_point_selection"), ("torque controller", "src/gem_controllers/torque_controller.py")], ["currents and flux references of the torque controller"])
prop("C32", "State observers show the latest observation",
     "A StateObserver of an environment (wrapped or not) returns for every name of an observed state and for every reference (name with suffix _ref) exactly the value of the latest observation that reset or step returned, for every state filter, reference generator and physical system wrapper; "
     "it raises a ValueError for all other names and before the first reset. Any number of observers can be made at any time; they never change the environment, and other environments do not change what they show.",
     ["histories", "configurations"], "all event sequences up to a depth, filters, references, wrappers", "There are no tests of the observers.",
     [S + "observers", S + "core.py"], [("observer", S + "observers/observer.py"), ("current observation", S + "core.py")], ["observed values"])

NOTE = {}
CHECKS = {}


def main():
    with open(VERIF / "properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    have = {f.name.split("_")[0].upper(): f for f in (VERIF / "checks").glob("c[0-9]*.py")}
    import ast
    checks, na = [], []
    for p in P:
        f = have.get(p["id"])
        if f is None:
            na.append(dict(property=p["id"], reason=REASON.get(p["id"], "check under construction")))
            continue
        consts = {}
        for n in ast.parse(f.read_text()).body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                try:
                    consts[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
        checks.append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
                           technique=consts.get("TECHNIQUE", "bounded exhaustive exploration of the real code in lockstep with an independent reference model"),
                           level=consts["LEVEL"],
                           level_note="complete within: " + consts["RULE"] + ". Assumes: " + "; ".join(consts["ASSUMPTIONS"])))
    m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the checks drive the public API. See DESIGN.md; known findings and repaired defects are in known_findings.txt.")
    (VERIF / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(P), "properties,", len(checks), "checks")


REASON = {}

if __name__ == "__main__":
    main()
