"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
S = "src/trusspy/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
            state=[dict(name=a, meaning=b, where=S+c) for a,b,c in state],
            mechanism=[dict(name=a, where=S+b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))

NOASSERT = "The test suite contains no assertion at all; it only shows that a handful of fixed models run without raising. "

p("C01","Element forces follow the exact finite-displacement truss kinematics",
  "For any truss element with non-zero undeformed and deformed length, the evaluated stretch is the ratio of current to undeformed length, the stress is the material stress at the Biot strain (stretch minus one), and the axial force is stress times cross-section area. Its internal nodal forces are the axial force along the current element axis, pulling the two end nodes with equal size and opposite sign. This holds for arbitrarily large displacements and rotations and for any end-node order.",
  ["inputs"],"all end-node coordinates, displacements, areas and material parameters (reals), every material type",
  NOASSERT+"The geometries sampled are a few symmetric trusses; a wrong component, a small-strain approximation or a threshold would never show.",
  ["elements/element_definition.py","model.py"],
  [("element kinematics and internal force","elements/element_definition.py:truss"),("gathering of nodal data per element","model.py:Model.equilibrium")],
  [("stretch, element_stress, element_force","per-element results","core/analysis.py:Analysis"),("r","nodal internal forces","core/analysis.py:Analysis")],
  ["Model.Analysis after Model.equilibrium"])

p("C02","Tangent stiffness is the exact derivative of the internal forces",
  "For every configuration, the stiffness matrix of the free degrees of freedom equals the exact derivative of the internal force vector of the free degrees of freedom with respect to their displacements, including the geometric part; for elastic-plastic elements it is the derivative of the force as actually computed from the committed history, on both sides of the yield limit. The matrix is symmetric. Evaluating it alters neither the internal forces that a subsequent evaluation returns nor the material history.",
  ["inputs"],"all coordinates, displacements, areas, material parameters and committed histories, elastic, loading and unloading branch, several elements sharing nodes",
  NOASSERT+"A slightly wrong tangent only slows Newton down or makes it fail later; no test looks at it.",
  ["elements/element_definition.py","model.py","materials/material_definition.py"],
  [("element tangent and assembly into K","elements/element_definition.py:truss"),("reduction to active DOF","model.py:Model.stiffness"),("consistent material tangent","materials/material_definition.py")],
  [("K, Kred","full and reduced stiffness","core/analysis.py:Analysis")],["return value of Model.stiffness"])

p("C03","Rigid motions change nothing but orientation; internal forces self-balance",
  "Superposing a rigid translation or a rigid rotation on any deformed configuration leaves all stretches, stresses and axial forces unchanged and rotates the nodal internal forces with the body. In every configuration the internal forces of the whole structure sum to zero and have zero resultant moment about any point in the deformed configuration.",
  ["inputs"],"all configurations, all translations, all angles about each coordinate axis (these generate all rotations)",
  NOASSERT+"No test compares two configurations related by a rigid motion.",
  ["elements/element_definition.py","model.py"],
  [("element kinematics uses differences of current positions only","elements/element_definition.py:truss")],
  [],["Model.Analysis after Model.equilibrium"])

p("C04","Structure response is the label-wise sum of element responses",
  "The internal force at a node is the sum of the forces of exactly the elements connected to it, and the stiffness block of a node pair is the sum of the blocks of exactly the elements joining them, with nodes and elements identified by their labels. Each element uses its own material parameters, area, material type, history and end nodes. The result does not depend on the order in which nodes, elements, boundaries or forces were defined, nor on the label values.",
  ["inputs","configurations"],"all distinct integer labels, all definition orders and connectivities of small structures (up to 4 nodes, 6 elements), all real coordinates/parameters",
  NOASSERT+"All test models use labels 1..n in increasing order, so row index and label coincide.",
  ["model.py","elements/element_definition.py","handlers/handler_element.py","handlers/handler_node.py"],
  [("element loop and gather/scatter by label","model.py:Model.equilibrium"),("scatter into r and K","elements/element_definition.py:truss"),("label lookups","handlers/handler_element.py")],
  [],["Model.Analysis.r, .K, .stretch, .element_force"])

p("C05","Linear-elastic elements respond linearly and without memory",
  "The stress of a linear-elastic element is Young's modulus times the total strain, with Young's modulus as tangent, for every strain of either sign. It does not depend on the strain increment, on earlier states or on the presence of elastic-plastic elements in the same model, and evaluating it leaves the stored history values of that element as they were.",
  ["inputs","histories"],"all strains, strain increments, moduli and stored history values",
  NOASSERT,
  ["materials/material_definition.py","model.py"],
  [("elastic law","materials/material_definition.py:umat_el"),("selection of the law per element","model.py:Model.equilibrium")],
  [],["element_stress, state_v of a model evaluation; the material function itself"])

p("C06","Elastic-plastic elements satisfy the isotropic-hardening flow rules",
  "From any admissible state (current yield stress at least the initial one), an elastic-plastic strain update is elastic with unchanged history if the trial stress does not exceed the current yield stress in magnitude; otherwise the new stress lies exactly on the new yield limit with the sign of the trial stress, the yield stress grows by the plastic modulus times the magnitude of the plastic strain increment, and the plastic strain increment has the sign of the stress. Stress always equals Young's modulus times elastic strain, the tangent is E in the elastic and E*K/(E+K) in the plastic case, and the yield stress never decreases. Tension and compression are treated alike.",
  ["inputs","histories"],"all strains, admissible histories and parameters E>0, K>=0, Sy>0; sequences of strain updates (up to 3 reversals) from the virgin state",
  NOASSERT+"The plastic tests run one-dimensional bars without looking at stress or history.",
  ["materials/material_definition.py"],
  [("return mapping","materials/material_definition.py:umat_elplast_iso")],
  [("state_v[0]","current yield stress (0: virgin)","materials/material_definition.py"),("state_v[1]","plastic strain","materials/material_definition.py")],
  ["return values of the material function; element_stress and state_v of a model"])

p("C07","Material history advances only with accepted increments",
  "Residual and stiffness evaluations during the iteration, discarded or recycled attempts and repeated evaluations never change the committed material history; the history changes only when an increment is accepted, exactly once, and then from the history committed by the previous accepted increment at the accepted displacements. An element's history depends on that element only, and histories are carried over from step to step.",
  ["histories","inputs"],"all sequences of evaluations and of accepted/rejected attempts (2-3 increments, up to 3 attempts each, 1-2 steps), all displacements",
  NOASSERT+"The plastic tests converge on the first attempt and nothing looks at the history.",
  ["model.py","elements/element_definition.py","solvers/tpsolver.py"],
  [("commit flag","model.py:Model.equilibrium"),("commit after acceptance","solvers/tpsolver.py:pathfollow")],
  [("state_v","committed history per element","core/analysis.py:Analysis")],["state_v of the results"])

p("C08","Out-of-balance force: own step's load scaled by LPF plus frozen earlier steps",
  "In load step s the residual at the free degrees of freedom is the external minus the internal force, where the external force is the step's own reference load times the load-proportionality factor plus, for every earlier step, its reference load times the factor reached at the end of that step. Each step starts at factor zero from the displacements and history at the end of the previous one, so the total external load and the displacements are continuous across steps.",
  ["inputs","histories"],"all load vectors, factors and displacements; up to 3 steps",
  NOASSERT+"Multi-step tests exist but nothing compares forces.",
  ["model.py","solvers/tpsolver.py","handlers/handler_extforce.py"],
  [("constant part of the loads, step slicing","model.py:Model.run"),("residual","model.py:Model.equilibrium")],
  [("forces_const","loads frozen from earlier steps","model.py:Model.run"),("step_lpf_end","factor at the end of each step","handlers/handler_result.py")],
  ["g and lpf of the results, return value of Model.equilibrium"])

p("C09","Extended system and its Jacobian are consistent for every control component",
  "The extended residual is the internal minus external force of the free degrees of freedom followed by the control equation (controlled component minus its target value). The extended matrix is its exact derivative with respect to free displacements and load factor: stiffness block, negative reference load as last column, and a control row with a single one at the controlled component. This holds for every control component, of either sign, including the load factor.",
  ["inputs"],"all free displacement vectors (1-3 DOF), load factors, loads, control components +-1..n+1 and targets, every load step",
  NOASSERT,
  ["solvers/tpsolver.py","model.py"],
  [("extended residual","solvers/tpsolver.py:f"),("extended matrix","solvers/tpsolver.py:dfdx")],
  [("Kmod","extended matrix","solvers/tpsolver.py:dfdx")],["what the Newton solver is handed"])

p("C10","Newton reports success only at a solution within both tolerances",
  "The Newton solver reports success exactly when, after some iteration within the allowed number, the residual norm at the returned point is below the residual tolerance and the norm of the last correction is below the step tolerance; it then stops at that iteration. The returned norms and iteration count describe the returned point, every correction solves the linearised system at the current iterate, and the number of iterations never exceeds the allowed one.",
  ["inputs","histories"],"all residual/Jacobian functions (arbitrary values per evaluation, 1-2 unknowns), all tolerances, 1-3 allowed iterations; all linear systems",
  NOASSERT+"A docstring example exists but is not run.",
  ["solvers/zerosearch.py"],
  [("Newton iteration","solvers/zerosearch.py:newton")],[],["return value of newton"])

p("C11","Accepted increments are converged and inside the step limits",
  "Every increment that path following returns as accepted is a point at which the equations converged with the configured tolerances, reached from the previously accepted point; no component of its total increment exceeds the current step limit by more than the overshoot tolerance (with a locked control component: that component). Each attempt restarts from the previously accepted point and moves the control component by its step limit in the direction of its sign; after an attempt that converged outside the limits the signed component with the largest relative increment becomes the control component, after one that did not converge it is kept.",
  ["inputs","histories","fault_sequences"],"all outcomes of the Newton solver (converged or not, any point) in every attempt, 2-3 unknowns, free and locked control, both settings of the pre-identification, all step limits and tolerances",
  NOASSERT+"Which attempts fail depends on the model; tests hit only a few recycles.",
  ["solvers/tpsolver.py"],
  [("acceptance test and recycling","solvers/tpsolver.py:pathfollow")],
  [("x0, j, xmax","start point, control component and its target","solvers/tpsolver.py:pathfollow")],
  ["return value of pathfollow; arguments handed to the Newton solver"])

p("C12","Adaptive step width stays in bounds and keeps its proportions",
  "With adaptive control the incremental limits of all components are always one common factor times their initial values, and that factor stays between the configured minimum and maximum factor. A limit is only reduced after an attempt that did not converge, by the configured reduction, and only increased after a converged attempt with unchanged control component, no recycle and more than three accepted increments since the last reduction, by at most the configured increase and never when all allowed iterations were used. Without adaptive control the limits never change.",
  ["inputs","histories"],"one controller step from every admissible controller state (inductive), all settings; and sequences of increments of the path-following loop with arbitrary outcomes",
  NOASSERT,
  ["solvers/tpsolver.py"],
  [("step width controller","solvers/tpsolver.py:dxmax_control"),("use of the controller","solvers/tpsolver.py:pathfollow")],
  [("dxmax, b, z","current limits, increments since reduction, recycles","solvers/tpsolver.py:pathfollow")],
  ["return value of dxmax_control; dVmax of the results"])

p("C13","Path following stops exactly when its limits say so",
  "In each step no more than the configured number of increments is computed, and the step ends with the first accepted increment whose monitored component exceeds the configured limit in magnitude, never before. The number of attempts per increment is bounded whatever the solver does; when an increment cannot be completed the step ends and the failed attempt is not among the returned increments.",
  ["inputs","histories","fault_sequences"],"all outcomes of the Newton solver, all limits, increments 1-3, recycles 1-4, with and without adaptive step width; scalar and per-step settings",
  NOASSERT+"No test reaches the error exits.",
  ["solvers/tpsolver.py","model.py"],
  [("increment loop, recycle loop and exits","solvers/tpsolver.py:pathfollow"),("per-step limits","model.py:Model.run")],
  [],["number and content of the results"])

p("C14","Results are complete, ordered, self-consistent snapshots",
  "After a run the results consist of the undeformed state followed by every accepted increment of all steps in order, nothing else. In each one displacements, load factor, internal forces, out-of-balance forces, stretches, stresses, axial forces, applied loads and step number belong to the same solution point, and its start-of-increment displacements are the displacements of the preceding result. Later computation never changes an earlier result. The access methods of a result (full, flat, reduced to the free degrees of freedom) give the values of its tables.",
  ["histories","inputs"],"all solution points of 1-3 increments in 1-3 steps, all material parameters, histories with rejected attempts",
  NOASSERT+"Tests only plot the results.",
  ["handlers/handler_result.py","model.py","solvers/tpsolver.py"],
  [("collecting increments","model.py:Model.run"),("snapshots","handlers/handler_result.py"),("saving an increment","solvers/tpsolver.py:pathfollow")],
  [("Results.R","list of results","handlers/handler_result.py")],["Model.Results.R"])

p("C15","Building a model aligns all tables by node label and fills in defaults",
  "After building, nodes are sorted by label and row i of coordinates, boundary flags and external forces belongs to the i-th label, whatever the definition order. Nodes without a displacement boundary are free and nodes without an external force carry zero load in all components and steps; given values are kept unchanged. The free and the locked degrees of freedom partition all degrees of freedom exactly according to the flags. The same holds when a model that has been built is edited (nodes, boundaries, loads added, replaced or deleted) and built again.",
  ["inputs","configurations"],"all distinct integer labels, all definition orders, all subsets of nodes with boundary or force, all flags and load values, 2-4 nodes, 1-3 steps",
  NOASSERT+"Tests define everything in increasing label order, mostly for all nodes.",
  ["handlers/handler_node.py","handlers/handler_boundary.py","handlers/handler_extforce.py","model.py"],
  [("sorting and defaults","handlers/*.py: fix_nodes, fix_bounds_U, fix_forces"),("DOF numbering","model.py:Model.build")],
  [],["Model.Nodes, .Boundaries, .ExtForces, .Analysis after build"])

p("C16","Model tables behave as label-keyed maps under any edit history",
  "After any sequence of adding, deleting and assigning, every node, element, boundary and force label present has exactly the data last given for it (coordinates, end nodes, material and element type, material parameters, geometry, flags, load), and deleted ones are gone. Assigning to some labels or to all changes exactly those and nothing else; material parameters keep their value exactly whatever numeric type was used before, padded with zeros where parameter counts differ.",
  ["histories","inputs"],"all edit sequences up to length 5 over up to 4 labels, all label values, integer and real values",
  NOASSERT+"Deletion is never exercised; assignment only to all elements.",
  ["handlers/handler_element.py","handlers/handler_node.py","handlers/handler_boundary.py","handlers/handler_extforce.py","core/element.py"],
  [("add/del/assign/get methods","handlers/*.py")],[],["handler attributes and getters"])

p("C17","Building and running is repeatable and leaves the model definition intact",
  "Building and running a model never changes the user's node coordinates, connectivity, material and geometric parameters, boundary flags or loads. Building the same model again resets displacements, history, load factor and results, so that a second build and run gives the same results as the first and does not alter results obtained earlier. A model changed after a run, or whose run was ended by an error, gives the results of a new model defined that way.",
  ["histories","inputs"],"all parameters and solution points; build-run-build-run sequences, with changed material in between",
  NOASSERT+"One test rebuilds with other material, without comparing anything.",
  ["model.py","handlers/handler_result.py","core/analysis.py"],
  [("fresh analysis and results","model.py:Model.build"),("copies of the load table","model.py:Model.run")],[],["Model.Results.R, handlers"])

p("C18","History and path plots draw exactly the recorded values",
  "A history plot shows, for every result in order, the recorded value of the requested quantity (displacement or force component X/Y/Z, load factor, increment number) at the node with the requested label, separately for the x and y axis. A path plot shows the requested quantity of the requested increment at the nodes of the path in path order. The axes are labelled with the quantities they show.",
  ["inputs","configurations"],"all recorded values, all label values and orders, all components, node pairs, increments",
  NOASSERT+"Figures are written but not read; labels equal row numbers in all tests.",
  ["tools/plot_utilities.py","tools/helper_functions2.py","model.py"],
  [("data extraction","tools/plot_utilities.py:p_history, p_path"),("drawing","tools/helper_functions2.py:plot_hist, plot_pth")],[],["line data of the returned axes"])

p("C19","Model plots draw the recorded deformed structure and loads",
  "A model plot of an increment draws every node at its undeformed position plus the recorded displacement, every element as the line between the positions of its two end nodes, and an arrow for each non-zero load component equal to plot scale times (load factor times reference load of the increment's step plus loads kept from earlier steps), in the projection of the view. For increment zero the undeformed structure with the unscaled first-step load is drawn; contour colours are those of the requested quantity of the same increment and element. Negative increments count from the end. The title names the increment, and a visible range given by the caller is used.",
  ["inputs","configurations"],"all recorded values, labels and definition orders, views xz/xy/yz/3d, all increments",
  NOASSERT+"Figures are written but not read; labels equal row numbers in all tests.",
  ["tools/plot_utilities.py","tools/helper_functions2.py"],
  [("assembly of plot data","tools/plot_utilities.py:p_model"),("drawing","tools/helper_functions2.py:plot_nodes, plot_elems, plot_force")],[],["artists of the returned axes"])

p("C20","Movies show the chosen increments in order and touch only their own folder",
  "A movie contains exactly one frame per chosen increment, showing that increment, in the order of increasing increment number, however many increments there are; stale frames of an earlier movie are not included. By default all increments except the undeformed one are shown. Creating it deletes and writes nothing outside its output folder below the current directory.",
  ["inputs","configurations"],"all increment numbers up to 99999 and pairs of them, any subset of up to 3 increments, any previous folder content",
  NOASSERT+"The longest movie in the tests has 160 frames and nobody looks at their order.",
  ["tools/plot_utilities.py","tools/movie_generator.py"],
  [("frame files","tools/plot_utilities.py:p_movie"),("collection of frames","tools/movie_generator.py:png_to_gif")],[],["files written/removed, frames handed to the GIF writer"])

p("C21","Log redirection is confined to the run and always undone",
  "A model created with a log file sends its output to that file and, once its run has ended, normally or by an error, standard output is again what it was when the model was created. A model without a log file never changes standard output. The log level only affects what is printed, never the results.",
  ["inputs","fault_sequences","configurations"],"all log levels, log file on/off, failure at any call into the equation solver, 1-2 steps",
  NOASSERT+"No test fails inside a run.",
  ["model.py"],
  [("redirection and restoration","model.py:Model.__init__, Model.run")],[],["sys.stdout, results"])

p("C22","Locked degrees of freedom stay at zero and carry the reactions",
  "A locked degree of freedom has zero displacement in every result, and the solver's unknowns, residual and matrix consist of exactly the free degrees of freedom in node order. Internal forces at locked degrees of freedom are the reactions: together with the external loads and the out-of-balance force they are in global equilibrium.",
  ["inputs","histories","configurations"],"all boundary flag patterns of up to 3 nodes, all solution points, 1-2 steps",
  NOASSERT,
  ["model.py","solvers/tpsolver.py"],
  [("scatter of the free displacements","model.py:Model.equilibrium"),("DOF selection","model.py:Model.build, Model.stiffness")],[],["U, r, g of the results; return values of residual and stiffness"])

p("C23","Solver settings reach the solution process unchanged",
  "A run uses exactly the configured number of increments per step, displacement and load-factor step limits, tolerances (ten to the minus the configured digits), iteration and recycle limits, overshoot tolerance, step-width control parameters, stop limit and initial or locked control component; settings given per step apply to their step. Any valid setting can be combined with any log level.",
  ["configurations","inputs"],"all real-valued settings symbolically, control component, flags, scalar and per-step values, 1-3 steps, log levels 0-2",
  NOASSERT+"Tests never set a control component and never check that a setting has an effect.",
  ["model.py","handlers/handler_settings.py","solvers/tpsolver.py"],
  [("hand-over of the settings","model.py:Model.run"),("defaults","handlers/handler_settings.py")],[],["behaviour of the path following as seen by the Newton solver and in the results"])

p("C24","The output tells how every step ended and what was accepted",
  "At any log level the output contains an error message for every step that is given up before its increments are complete and an exit message for every step ended by its stop limit, in order, and none otherwise. From log level 1 on it names steps and increments in order and shows the load factor of every accepted increment; from level 2 on it summarises every attempt: its number, iterations used, control component, and the components with the largest relative increments with their values.",
  ["histories","configurations"],"all sequences of up to 3-5 solver answers in 1-2 steps, log levels 0-3, stop limits, adaptive step width, pre-identification",
  NOASSERT+"The output of the tests is not read.",
  ["model.py","solvers/tpsolver.py"],
  [("messages","solvers/tpsolver.py:pathfollow"),("steps and results","model.py:Model.run")],[],["standard output or log file"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
    for q in P: fh.write(json.dumps(q)+"\n")
print(len(P))
