#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": observe, "hook_needed": hook}})

NOASSERT = "The five stable tests run two table printers, one quad precision LU and two code generations, and compare no number with anything. "

prop("C01", "Built-in model functions compute what they name, and derivatives match",
     "Every function that can be used in a model expression (arithmetic and logical operators, pow, the elementary, hyperbolic and error functions and their inverses, Bernoulli, Fermi and Gauss-Fermi integrals and inverses, step/sign/min/max, compensated sums) returns the value of the mathematical function it names to within its documented accuracy, over its whole domain including the switch points between internal approximations, in double and in extended precision. Each derivative function is the derivative of the function it belongs to, each inverse undoes its function, and a wrong number of arguments or an unknown function is an error, never a silent value.",
     ["inputs"], "all finite arguments in the domain of every built-in function, both precisions, all argument counts",
     NOASSERT + "test_fermi and test_gaussfermi print values without checking them; branch switch points, extreme arguments and derivative consistency are never compared with an independent evaluation.",
     ["src/MathEval/MathEval.cc", "src/MathEval/Bernoulli.cc", "src/MathEval/Fermi.cc", "src/MathEval/GaussFermi.cc", "src/MathEval/MiscMathFunc.cc", "src/MathEval/MathWrapper.cc", "src/AutoEquation/DefaultDerivatives.cc", "src/MathEval/kahan.hh"],
     [("function tables by number of arguments", "src/MathEval/MathEval.cc"), ("piecewise approximations with break points", "src/MathEval/Bernoulli.cc, Fermi.cc, GaussFermi.cc")],
     ["node_model/node values of expressions of one function", "test programs linked with the MathEval library"])

prop("C02", "Vector evaluation is elementwise, thread-count independent and race free",
     "Evaluating a model expression over a region gives at every node, edge or element edge the same value as evaluating the expression there alone, for any number of worker threads, any task size, any vector length and any mix of uniform and varying operands. A floating point exception or an error raised in any worker is reported exactly as in a serial evaluation, and is never lost or left over for a later evaluation. No two threads access the same data without synchronisation.",
     ["schedules", "inputs", "configurations"], "all vector lengths, thread counts, task sizes, schedules, and argument mixes including user functions registered from Python",
     NOASSERT + "No test enables threads, so no schedule, no split of a vector and no error raised in a worker is ever exercised.",
     ["src/MathEval/MathEval.cc", "src/MathEval/MathWrapper.cc", "src/utility/GetNumberOfThreads.cc", "src/utility/FPECheck.cc", "src/models/ScalarData.cc"],
     [("split of a vector over async tasks, exception flags joined", "src/MathEval/MathEval.cc"), ("thread count and task size parameters", "src/utility/GetNumberOfThreads.cc")],
     ["values of models under threads_available/threads_task_size", "ThreadSanitizer reports"])

prop("C03", "Code generated by the model compiler computes the models and exact derivatives",
     "For every model file the model compiler accepts, the generated device class computes for every model, equation and time-derivative term the value of the expression as written, and its Jacobian entries are exactly the partial derivatives of those terms with respect to every node variable, including through nested models, piecewise functions and user-defined functions. Simplification, sign, scale and common-factor rewriting never change the value of an expression. Malformed files are rejected with an error and no crash.",
     ["programs", "inputs"], "all model files of the language, and all values of parameters and node voltages at which the expressions are finite",
     "mctest1 and mctest_user1 only check that the compiler exits with 0 on two files; the generated code is neither compiled nor run.",
     ["src/adiff/EquationObject.cc", "src/adiff/LogicalFunc.cc", "src/adiff/UserFunc.cc", "src/adiff/mcParser.y", "src/adiff/mcScanner.l", "src/adiff/mcTest.cc", "src/adiff/mcModelCompiler.cc", "src/adiff/mcModel.cc"],
     [("symbolic derivative and simplification of expression trees", "src/adiff/EquationObject.cc"), ("code generation", "src/adiff/mcTest.cc")],
     ["generated C++ compiled and run"])

prop("C04", "A model value read is always the value for the current inputs",
     "Whenever a node, edge, element, interface or contact model is read, its values are those of its current expression evaluated on the current values of everything it depends on: parameters, circuit nodes, solutions, other models, derivative models and geometry, whatever sequence of redefinitions, assignments, copies, deletions and partial reads came before. Values of one device, region or interface never leak into another. A dependency cycle is reported as an error on every read, and leaves everything else usable.",
     ["histories"], "all histories of creating, replacing, deleting, assigning and reading models, solutions, parameters and circuit nodes",
     NOASSERT + "The cached evaluation and callback invalidation only go wrong after particular orders of reads and writes, which no test enumerates.",
     ["src/AutoEquation/ModelExprEval.cc", "src/AutoEquation/InterfaceModelExprEval.cc", "src/AutoEquation/NodeExprModel.cc", "src/models/NodeModel.cc", "src/models/EdgeModel.cc", "src/models/TriangleEdgeModel.cc", "src/models/TetrahedronEdgeModel.cc", "src/models/InterfaceNodeModel.cc", "src/models/ModelDataHolder.cc", "src/Geometry/Region.cc", "src/Geometry/Interface.cc", "src/Data/GlobalData.cc"],
     [("callbacks that mark dependent models as out of date", "src/Geometry/Region.cc"), ("values computed on demand, kept uniform or as a vector", "src/models/ModelDataHolder.cc"), ("cache of subexpressions", "src/AutoEquation/ObjectCache.hh")],
     ["get_*_model_values, print_*_values, get_*_list"],
     state=[("up-to-date flag", "values are valid", "src/models/*Model.cc")])

prop("C05", "Parameters and materials resolve by region, device, then global scope",
     "A parameter read on a region, device or globally returns the value most recently set at the innermost scope that defines it, of the type that was set, and parameter and material listings name exactly what is set. Deleting a device or resetting removes exactly what belonged to it, and a name reused later starts clean. Setting a parameter never changes an unrelated scope or name.",
     ["histories"], "all histories of setting, listing and reading parameters and materials and of creating and deleting devices, with any Unicode names and value types",
     NOASSERT + "Shadowing, deletion and reuse of names across scopes need sequences of operations.",
     ["src/Data/GlobalData.cc", "src/commands/MaterialCommands.cc", "src/commands/GeometryCommands.cc", "src/utility/GetGlobalParameter.cc", "src/pythonapi/ObjectHolder.cc"],
     [("three level lookup", "src/Data/GlobalData.cc"), ("conversion between Python and internal values", "src/pythonapi/ObjectHolder.cc")],
     ["set/get_parameter, get_parameter_list, set/get_material, delete_device"])

prop("C06", "Control volume geometry is exact and partitions every region",
     "For every mesh in one, two or three dimensions, edge lengths, unit vectors, edge couplings, node volumes per edge and per element, surface areas, normals and their cylindrical counterparts equal the perpendicular bisector (Voronoi) construction on the mesh coordinates. On meshes whose elements contain their circumcentres the node volumes of a region add up to its volume (or its volume of revolution), and the surface areas of a contact or an interface to its measure. Geometry follows every later change of contacts, interfaces and cylindrical axis.",
     ["inputs", "configurations"], "all simplex meshes, axes of revolution and contact/interface layouts",
     NOASSERT + "Geometry is only exercised by example meshes without a check of volumes or couplings.",
     ["src/GeomModels", "src/Geometry/Triangle.cc", "src/Geometry/Tetrahedron.cc", "src/Geometry/Region.cc", "src/Geometry/Vector.hh"],
     [("element centres and perpendicular distances", "src/Geometry/Region.cc, src/GeomModels/*EdgeCouple.cc"), ("scatter of element values to edges and nodes", "src/GeomModels/EdgeCouple.cc, EdgeNodeVolume.cc, NodeVolume.cc")],
     ["get_node/edge/element_model_values of the built-in models"])

prop("C07", "Edge, average, gradient and element field models follow their definition",
     "Values taken from nodes to edges, edge averages (arithmetic, geometric, negative and gradient kinds), vector gradients, values taken from nodes or edges to elements and element vector fields equal their defining formula on the mesh, and reproduce the field of a linear potential exactly. Every derivative model created along with them is the derivative of the model with respect to the node variable at the node its name says. Values written or copied per node, edge or element come back at the same place.",
     ["inputs"], "all meshes, nodal fields and variables, in one, two and three dimensions",
     NOASSERT + "The index bookkeeping between nodes, edges and elements is only visible when values are compared entity by entity.",
     ["src/models/EdgeFromNodeModel.cc", "src/GeomModels/AverageEdgeModel.cc", "src/GeomModels/VectorGradient.cc", "src/models/TriangleEdgeFromNodeModel.cc", "src/models/TriangleEdgeFromEdgeModel.cc", "src/models/TriangleEdgePairFromEdgeModel.cc", "src/models/TetrahedronEdgeFromNodeModel.cc", "src/models/TetrahedronEdgeFromEdgeModel.cc", "src/models/TetrahedronEdgePairFromEdgeModel.cc", "src/models/VectorTriangleEdgeModel.cc", "src/models/VectorTetrahedronEdgeModel.cc", "src/Geometry/TriangleElementField.cc", "src/Geometry/TetrahedronElementField.cc", "src/Geometry/GradientField.cc", "src/commands/ModelCommands.cc"],
     [("head/tail gather", "src/models/EdgeFromNodeModel.cc"), ("2x2 and 3x3 solves per element corner", "src/Geometry/*ElementField.cc")],
     ["get_edge/element_model_values after edge_from_node_model, edge_average_model, vector_gradient, element_from_*"])

prop("C08", "The assembled system equals its finite volume definition and its derivative",
     "For every set of bulk, contact, interface and custom equations the assembled right hand side equals the sum of node terms times node volume, edge fluxes times coupling with the sign of the edge direction, and element terms, with contact rows replaced and interface rows summed or added as specified. The assembled matrix is the derivative of that right hand side with respect to every unknown, entry by entry, including couplings across interfaces and to circuit nodes. Removing or replacing an equation, contact equation or interface equation removes or replaces exactly its terms.",
     ["inputs", "configurations", "histories"], "all meshes, equation sets, model expressions, contact and interface layouts and solution values",
     NOASSERT + "A wrong sign, index or dropped derivative only slows or bends a Newton iteration; no test compares the assembled system with anything.",
     ["src/Equation/Equation.cc", "src/Equation/ContactEquation.cc", "src/Equation/InterfaceEquation.cc", "src/AutoEquation/ExprEquation.cc", "src/AutoEquation/ExprContactEquation.cc", "src/AutoEquation/InterfaceExprEquation.cc", "src/AutoEquation/InterfaceNodeExprModel.cc", "src/Geometry/Region.cc", "src/Geometry/Device.cc", "src/commands/EquationCommands.cc", "src/math/Newton.cc"],
     [("assembly of node, edge and element terms", "src/Equation/*.cc"), ("row permutation at contacts and interfaces", "src/math/Newton.cc")],
     ["get_matrix_and_rhs, get_equation_numbers"])

prop("C09", "A solve either meets its tolerances or fails and restores the previous solution",
     "When a solve is reported as converged, the last update of every equation was finite and within the requested absolute and relative errors, on every device and the circuit, and the reported iteration data agree with the solution left behind. When it does not converge, diverges or raises an error in a model, a linear solver or a Python callback, the error is reported and all node and circuit solutions are those from before the call. Limits on iterations and update damping hold as requested, and positive-valued variables stay positive.",
     ["inputs", "fault_sequences", "configurations"], "all problems, starting points, tolerances and failures injected at any iteration",
     NOASSERT + "Failure paths (floating point exception in a model, solver failure, iteration limit) are not run by any test.",
     ["src/math/Newton.cc", "src/Equation/Equation.cc", "src/Equation/EquationHolder.cc", "src/Geometry/Region.cc", "src/Geometry/Device.cc", "src/Circuit/data/NodeKeeper.cc", "src/commands/MathCommands.cc", "src/math/LinearSolver.cc"],
     [("backup and restore of solutions", "src/math/Newton.cc"), ("error norms", "src/Equation/Equation.cc, src/Circuit/data/NodeKeeper.cc")],
     ["solve(info=True), get_node_model_values, get_circuit_node_value"])

prop("C10", "Terminal currents and charges are the flux through the contact and balance",
     "After a converged solve, the current and charge reported for a contact equal the integral of the edge flux, edge charge and node terms of that contact's equation over exactly the nodes of the contact (a node shared by contacts counts for one of them), whichever of node, edge and element models it uses. At a converged steady state the currents of all contacts of a device sum to the integral of its sources, and the current through a contact tied to a circuit node equals the current the circuit sees.",
     ["inputs", "configurations"], "all devices, contact layouts and biases",
     NOASSERT + "Terminal currents are printed by examples but compared with nothing.",
     ["src/Equation/ContactEquation.cc", "src/Geometry/Contact.cc", "src/commands/EquationCommands.cc", "src/commands/ModelCommands.cc", "src/math/Newton.cc"],
     [("integration over contact nodes and edges", "src/Equation/ContactEquation.cc")],
     ["get_contact_current, get_contact_charge, circuit node values"])

prop("C11", "Transient steps satisfy the discrete equations of the chosen method",
     "Each transient step with backward Euler, trapezoidal or second order backward differentiation leaves a solution that satisfies that method's difference equation for the given step sizes, with charges and currents taken from the previously accepted steps only. A rejected step changes neither the solution nor the stored history, and the stored history always belongs to the last accepted step. Constant solutions stay constant and the exact order of the method is attained.",
     ["histories", "inputs"], "all sequences of step sizes, methods, rejections and device/circuit problems",
     NOASSERT + "Correctness of stored time history shows only over sequences of steps of different sizes and methods.",
     ["src/math/Newton.cc", "src/math/TimeData.cc", "src/commands/MathCommands.cc", "src/Circuit/models/ideal"],
     [("coefficients of the time discretisation", "src/math/Newton.cc"), ("stored charge and current vectors", "src/math/TimeData.cc")],
     ["solve(type=transient_*), node and circuit values"])

prop("C12", "Small signal and noise results equal the linearised system",
     "An AC solve returns at every node and circuit node the solution of the system linearised at the operating point, conductance plus j times two pi times frequency times capacitance, driven by the AC sources. A noise solve returns at every node the transfer impedance from an injection there to the chosen output, with the derived fields being its gradients. Neither changes the operating point.",
     ["inputs", "configurations"], "all devices, circuits, operating points, frequencies and outputs",
     NOASSERT + "No test compares AC or noise results with a linearisation obtained in another way.",
     ["src/math/Newton.cc", "src/commands/MathCommands.cc", "src/Circuit/data/NodeKeeper.cc", "src/Circuit/data/InstanceKeeper.cc", "src/math/CompressedMatrix.cc"],
     [("complex assembly and transpose solve", "src/math/Newton.cc")],
     ["solve(type=ac|noise), *_real/*_imag solutions, ssac circuit solutions"])

prop("C13", "Circuit elements and nodes obey Kirchhoff's laws and their element equations",
     "For every netlist of resistors, capacitors, inductors, and voltage and current sources, a converged circuit solution satisfies every element's equation and current balance at every node, in DC, transient and AC. Altering, adding or deleting elements and nodes takes effect in the next solve for exactly that element, invalid elements, parameters and nodes are rejected, and circuit listings always match what exists.",
     ["inputs", "histories"], "all netlists and histories of adding, altering and deleting elements and nodes",
     NOASSERT + "No circuit is solved by the tests.",
     ["src/Circuit/data/NodeKeeper.cc", "src/Circuit/data/InstanceKeeper.cc", "src/Circuit/data/InstanceModel.cc", "src/Circuit/data/CircuitNode.cc", "src/Circuit/models", "src/commands/CircuitCommands.cc"],
     [("stamps per element", "src/Circuit/models/*.cc"), ("node numbering and tables of solutions", "src/Circuit/data/NodeKeeper.cc")],
     ["circuit_element, circuit_alter, circuit_node_alias, get_circuit_node_value, get_circuit_node_list, get_circuit_equation_number"])

prop("C14", "Sparse matrices, permutations and linear solves are exact linear algebra",
     "For every sequence of accumulated entries, the compressed matrix handed to a solver or returned to the user (row or column storage, real or complex) is well formed and holds exactly the accumulated sums, and products, permutations, transposes and factorisations with it are those of that matrix. Direct, iterative, user supplied and extended precision solvers return the solution of the system they were given to working precision, or report failure.",
     ["inputs", "histories", "configurations"], "all sparsity patterns, orders of accumulation, storage formats, sizes and right hand sides",
     "getrftest factors one fixed matrix; the compressed matrix, the solvers and the solver callback interface are not run.",
     ["src/math/CompressedMatrix.cc", "src/math/Matrix.cc", "src/math/DenseMatrix.cc", "src/math/gmres.cc", "src/math/LinearSolver.cc", "src/math/DirectLinearSolver.cc", "src/math/IterativeLinearSolver.cc", "src/math/BlockPreconditioner.cc", "src/math/Preconditioner.cc", "src/math/ExternalPreconditioner.cc", "src/math/MKLPardisoPreconditioner.cc", "src/math/SolverUtil.cc", "external/getrf"],
     [("symbolic pattern and numeric phase", "src/math/CompressedMatrix.cc"), ("flexible restarted iteration", "src/math/gmres.cc")],
     ["get_matrix_and_rhs", "the solver callback", "test programs linked with the math library"])

prop("C15", "Saving and loading devices preserves everything",
     "Writing devices with finite values and names without double quotes to the native format and loading them gives devices with the same regions, contacts, interfaces, connectivity, coordinates, materials, model definitions and values, equations and solutions, bit for bit in value, so that every later read or assembly gives the same result, and a second save writes the same content. Loading a truncated or corrupted file fails with an error or gives the device which the file then describes, without a crash; a file which cannot be loaded leaves no half-loaded device and does not disturb later loads; a write which fails is reported as an error.",
     ["inputs", "histories", "fault_sequences"], "all devices, any names, extreme finite values, and any truncation or corruption of a file",
     NOASSERT + "No file is written or read by the tests.",
     ["src/meshing/DevsimRestartWriter.cc", "src/meshing/DevsimWriter.cc", "src/meshing/DevsimLoader.cc", "src/meshing/DevsimParser.y", "src/meshing/DevsimScanner.l", "src/Geometry/DeviceInstantiate.cc", "src/Geometry/GeometryStream.cc", "src/models/NodeModel.cc"],
     [("text format with commands for models", "src/meshing/DevsimRestartWriter.cc"), ("parser and loader", "src/meshing/DevsimParser.y, DevsimLoader.cc")],
     ["write_devices, load_devices"])

prop("C16", "Visualisation files contain the data of the simulation",
     "Files written for visualisation (VTK and Tecplot) are well formed, refer to each other so that they are found, and contain, for every region, the coordinates, connectivity and every displayed scalar and vector which the filter includes, with the values the simulator holds (all digits in VTK, six in Tecplot; edge models as averages on the nodes, element models as averages on the elements), each attached to the right point or cell and under its name, whatever the number of values. A failed write is reported as an error.",
     ["inputs", "configurations"], "all devices, sizes, numbers and kinds of models, names and include filters",
     NOASSERT + "No file is written by the tests, and the block-compressed binary data can only be judged by decoding it.",
     ["src/meshing/VTKWriter.cc", "src/meshing/TecplotWriter.cc", "src/utility/base64.cc", "src/pythonapi/ZlibCompress.cc", "src/Geometry/GradientField.cc", "src/models/EdgeModel.cc"],
     [("base64 of compressed blocks", "src/utility/base64.cc")],
     ["write_devices(type=vtk|tecplot)"])

prop("C17", "Imported meshes become exactly the device the mesh describes",
     "A Gmsh file, in every supported version, or node and element arrays given from Python yield regions, contacts and interfaces with exactly the nodes, elements and coordinates that the mesh assigns to them: every element once, shared nodes once per region, interfaces with matching node pairs, physical names and numbers honoured. Malformed, truncated or inconsistent input is rejected with an error, without a crash and without leaving a usable half-built mesh.",
     ["inputs", "fault_sequences"], "all meshes and all malformed files",
     NOASSERT + "No mesh is loaded by the tests.",
     ["src/meshing/GmshLoader.cc", "src/meshing/GmshParser.y", "src/meshing/GmshScanner.l", "src/meshing/MeshLoaderUtility.cc", "src/meshing/MeshLoaderStructs.cc", "src/meshing/Mesh.cc", "src/meshing/MeshKeeper.cc", "src/commands/MeshingCommands.cc"],
     [("parser", "src/meshing/GmshParser.y"), ("processing of physical groups to regions, contacts and interfaces", "src/meshing/GmshLoader.cc")],
     ["create_gmsh_mesh, add_gmsh_*, finalize_mesh, create_device, get_element_node_list"])

prop("C18", "Built-in 1D and 2D meshes honour their lines, spacing and regions",
     "A mesh built from lines contains every specified line, grades from the spacing at one line to that at the next without overlap, gaps, degenerate or inverted elements, and covers each region's box exactly. Regions, contacts and interfaces contain exactly the nodes their lines, boxes and tags describe, with later regions overriding earlier ones. Inconsistent descriptions are rejected with an error.",
     ["inputs"], "all sets of lines, spacings, regions, contacts and interfaces",
     NOASSERT + "No mesh is built by the tests.",
     ["src/meshing/Mesh1d.cc", "src/meshing/Mesh2d.cc", "src/meshing/Mesh2dStructs.cc", "src/meshing/MeshUtil.cc", "src/commands/MeshingCommands.cc"],
     [("graded spacing", "src/meshing/Mesh1d.cc, Mesh2d.cc")],
     ["create_1d_mesh, add_1d_*, create_2d_mesh, add_2d_*, node coordinates and element node lists"])

prop("C19", "Any command sequence is memory safe and a failed command changes nothing",
     "Every command called with any arguments in any state either succeeds or raises the simulator's exception with a message; it never crashes, hangs, corrupts memory, leaks a pending error into a later call or uses freed objects. A command that raises leaves devices, meshes, models, equations, parameters and circuit as they were. Listings reflect exactly what has been created and deleted.",
     ["histories", "inputs"], "all sequences of API calls with valid, invalid, mistyped and boundary arguments",
     "The tests make no API call at all; sanitizers are not used.",
     ["src/pythonapi", "src/commands", "src/Data/GlobalData.cc", "src/Geometry/Region.cc", "src/Geometry/Device.cc", "src/meshing/MeshKeeper.cc", "src/errorSystem", "src/main"],
     [("argument checking", "src/pythonapi/GetArgs.cc, src/commands/Validate.cc"), ("error translation", "src/pythonapi/CommandHandler.cc")],
     ["every command, under address and undefined behaviour sanitizers"])

prop("C20", "Extended precision models, equations and solvers agree with double, only finer",
     "With extended precision switched on for models, equations or the solver, every result agrees with the double precision result to double accuracy, and quantities whose rounding error is limited by double arithmetic are resolved further. Mixing precisions between models, equations and solver, and switching them between devices, never changes results beyond rounding.",
     ["configurations", "inputs"], "all combinations of the precision switches and all problems",
     NOASSERT + "Only the quad precision LU is run, on one matrix.",
     ["src/MathEval", "src/models/ModelDataHolder.cc", "src/utility/Float128.hh", "src/math/Newton.cc", "src/Equation/EquationHolder.cc", "src/Data/GlobalData.cc", "src/Geometry/Region.cc"],
     [("templates instantiated for both types, conversion at the boundary", "src/models/ModelDataHolder.cc")],
     ["parameters extended_model, extended_equation, extended_solver"])

prop("C21", "Contacts and interfaces pair the right nodes, and models there see both sides",
     "Contacts and interfaces consist of exactly the nodes, edges and elements described, in corresponding order on both sides of an interface. Interface models combine the values of the paired nodes of the two regions and of the interface, and their derivative models refer to the right side; contact models take effect at contact nodes only. Creating an interface from nodes or a contact from an interface keeps all of this and every existing contact and interface intact.",
     ["inputs", "histories"], "all devices with contacts and interfaces, and orders of creation",
     NOASSERT + "Pairing shows only when values on the two sides are compared node by node.",
     ["src/Geometry/Interface.cc", "src/Geometry/Contact.cc", "src/models/InterfaceNodeModel.cc", "src/AutoEquation/InterfaceModelExprEval.cc", "src/AutoEquation/InterfaceModelExprData.cc", "src/commands/MeshingCommands.cc", "src/commands/ModelCommands.cc", "src/Geometry/DeviceInstantiate.cc"],
     [("node lists of both sides", "src/Geometry/Interface.cc")],
     ["interface_model, get_interface_model_values, contact_node_model, create_interface_from_nodes, create_contact_from_interface, get_element_node_list"])

prop("C22", "The shipped physics packages set up a consistent drift-diffusion system",
     "The Python packages for oxide, silicon, Fermi statistics and mobility models define models whose derivative models are their derivatives, satisfy the semiconductor identities (charge neutrality and mass action in equilibrium, zero current at zero bias, fluxes that vanish in equilibrium, recombination with the sign of np minus ni squared), and the ramping helper reaches exactly the requested bias or fails. Current is continuous through the device at every converged bias.",
     ["inputs", "configurations"], "all devices, dopings, temperatures and biases",
     "The test build only checks that the Python files parse.",
     ["python_packages/simple_physics.py", "python_packages/simple_dd.py", "python_packages/model_create.py", "python_packages/fermi_physics.py", "python_packages/Klaassen.py", "python_packages/mos_physics.py", "python_packages/ramp.py", "python_packages/pythonmesh.py", "umfpack/umfshim.py"],
     [("model definition helpers", "python_packages/model_create.py"), ("Scharfetter-Gummel fluxes", "python_packages/simple_dd.py")],
     ["models and contact currents after running the packages in the simulator"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
