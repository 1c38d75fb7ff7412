import json
T='/repo/src/thunder/'
def p(id,title,st,over,txt,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":txt},"why_tests_cant":why,"anchors":a}
K="src/thunder/src/kinematics.cpp"; D="src/thunder/src/dynamics.cpp"; R="src/thunder/src/regressors.cpp"; B="src/thunder/src/robot.cpp"; U="src/thunder/src/utils.cpp"; F="src/thunder/src/FrameOffset.cpp"; G="src/thunder/src/genYaml.cpp"; X="src/thunder/src/userDefined.cpp"; W="src/thunder/thunder_robot_template/thunder_robot.cpp"; H="src/thunder/thunder_robot_template/thunder_robot.h"; M="src/thunder/thunder_main.cpp"; Y="src/genYAML/src/urdf2dh_inertial.cpp"; YM="src/genYAML/main_YAML.cpp"
only="The tests run three fixed robots (RRR_sea, R3/R5/R7/R9 timing, one generated RRR and R3) at one or two states and compare nothing but finiteness and one gravity-only torque difference; "
P=[]
P.append(p("C01","Forward kinematics follows the modified DH convention",
"For every serial robot of rotational and prismatic joints (elastic or rigid), every DH table, base and end-effector offset (translation plus yaw-pitch-roll) and every joint vector, each relative transform equals Rx(alpha), translation a, then Rz(theta), translation d with the joint variable added to theta (rotational) or d (prismatic), and each absolute transform, including base, every frame and the end effector, is the ordered product of base offset, relative transforms and end-effector offset. Every transform is a proper rigid transform (orthonormal rotation of determinant +1, last row 0 0 0 1). This holds both for the model evaluated in memory and for the generated library.",
["inputs","configurations"],"all joint-type sequences, DH tables, offsets and joint vectors",only+"no test compares a transform with an expected value, none has a prismatic joint or a rotated base.",
[K,B,W],[("DHTemplate / get_transform / compute_chain","%s"%K)],["T_i, T_0_i, T_0_ee of the model and of the generated class"]))
P.append(p("C02","Geometric Jacobians are the velocities of frames and centres of mass",
"For every robot and joint vector, each frame Jacobian and the end-effector Jacobian times a joint velocity gives the linear velocity of that frame's origin and the angular velocity of the frame, both in world coordinates, and each centre-of-mass Jacobian gives those of the corresponding link's centre of mass, as implied by differentiating the forward kinematics. Columns of joints that come after the frame are zero, and linear rows come before angular rows.",
["inputs","configurations"],"all robots, frames, links, joint vectors and joint velocities",only+"Jacobians are only printed.",
[K,D],[("compute_jacobians",K),("DHJacCM",D)],["J_i, J_ee, J_cm_i"]))
P.append(p("C03","End-effector Jacobian derivatives and damped pseudo-inverse are exact",
"Along every joint trajectory, the reported first and second time derivatives of the end-effector Jacobian equal the true derivatives of that Jacobian for the given joint positions, velocities and accelerations. The reported pseudo-inverse equals Jt (J Jt + 0.02 I)^-1 for the same Jacobian, at every configuration including singular ones, and is finite there.",
["inputs","configurations"],"all robots and all (q, dq, ddq), including kinematic singularities",only+"none of these functions is evaluated by a test.",
[K],[("compute_kin_adv",K)],["J_ee_dot, J_ee_ddot, J_ee_pinv"]))
P.append(p("C04","Mass matrix is the kinetic-energy metric: symmetric positive definite",
"For every robot, configuration and inertial parameters, the mass matrix is the matrix whose quadratic form in the joint velocities is twice the total kinetic energy of the links (translation of the centres of mass plus rotation with the given inertia about the centre of mass). It is symmetric, and positive definite whenever all masses and inertias are physically consistent.",
["inputs","configurations"],"all robots, inertial parameters, configurations and velocities",only+"the mass matrix is only printed and checked to be finite.",
[D],[("compute_MCG / createInertialParameters",D)],["M"]))
P.append(p("C05","Coriolis matrix is the Christoffel one and satisfies the skew property",
"For every robot and state, the Coriolis matrix and its classic formulation are both the matrix built from the Christoffel symbols of the mass matrix, so that time-derivative-of-M minus 2C is skew-symmetric and mass-matrix, Coriolis and gravity terms together give exactly the inverse dynamics of the rigid chain (Newton-Euler). Both formulations agree with each other at every state.",
["inputs","configurations"],"all robots, positions, velocities and accelerations",only+"at zero joint velocity, where the Coriolis term vanishes.",
[D],[("stdCmatrix / stdCmatrix_classic / dq_select",D)],["C, C_std"]))
P.append(p("C06","Gravity torque is the gradient of the potential energy",
"For every robot, gravity vector (any direction, symbolic or fixed, or absent meaning zero), base orientation and configuration, the gravity term equals the gradient with respect to the joint variables of the total potential energy of the links, with gravity expressed in world coordinates. It is linear in the gravity vector and does not depend on velocities.",
["inputs","configurations"],"all robots, gravity vectors, base orientations and configurations",only+"with vertical gravity and identity base rotation only.",
[D,B],[("compute_MCG",D),("gravity parsing",B)],["G"]))
P.append(p("C07","Time derivatives of M, C and G are exact along every trajectory",
"Along every joint trajectory the reported first and second time derivatives of the mass matrix, the Coriolis matrix and the gravity vector equal the true time derivatives of those quantities for the given positions, velocities, accelerations and jerks.",
["inputs","configurations"],"all robots and all (q, dq, ddq, d3q)",only+"none of these functions is evaluated by a test.",
[D],[("compute_dyn_derivatives",D)],["M_dot, M_ddot, C_dot, C_ddot, G_dot, G_ddot"]))
P.append(p("C08","Regressor times regressor parameters reproduces the dynamics",
"For every robot, state and reference, the regressor matrix times the vector of regressor parameters (mass, mass times centre of mass, inertia about the frame origin, link by link) equals M*reference acceleration + C*reference velocity + G computed from the same physical parameters. The separate mass, Coriolis and gravity regressors give each of the three terms on its own and sum to the full regressor; none of them depends on the inertial parameters.",
["inputs","configurations"],"all robots, inertial parameters, states, reference velocities and accelerations",only+"the single comparison is at zero velocity with identical unit inertias, so only the gravity columns matter.",
[R,D,B],[("compute_Yr",R),("update_inertial_REG",B)],["Yr, reg_M, reg_C, reg_G"]))
P.append(p("C09","Friction, stiffness, damping and motor terms follow their polynomial laws",
"For every order and coefficients, link friction of joint i is the sum of D_k*|v|^(k-1)*v over its own velocity v, elastic coupling torque of an elastic joint is the sum of K_k*(motor - joint position)^(2k-1), coupling damping and motor friction are the same friction law applied to motor-minus-joint velocity and motor velocity, each with that joint's own coefficients and that joint's own position or velocity wherever the elastic joint sits in the chain. The per-order coefficient matrices and the motor inertia matrix are diagonal with exactly those coefficients; these terms exist exactly when the configuration declares the corresponding order or the elastic model.",
["inputs","configurations"],"all orders, coefficients, signs of velocities, and placements of elastic joints in the chain",only+"only one robot whose joints are all elastic, at zero velocities and zero deflection rates.",
[D],[("compute_Dl / compute_elastic",D)],["dl, Dl*, k, K*, d, D*, dm, Dm*, Mm"]))
P.append(p("C10","Parameter regressors of friction, elasticity and kinematics are exact",
"The friction and elastic regressors times the vector of the corresponding symbolic coefficients plus the fixed part equal the torque itself, and the motor-inertia regressor times the motor inertias equals motor inertia times motor acceleration. The kinematic regressors equal the derivative of J*dq and of Jt*w with respect to the symbolic DH, base and end-effector parameters, in that order of parameters; each regressor exists exactly when at least one of its parameters is symbolic.",
["inputs","configurations"],"all robots, orders, symbolic selections, states, wrenches",only+"no test evaluates these functions.",
[R],[("compute_reg_Dl / compute_reg_elastic / compute_reg_J",R)],["reg_dl, reg_k, reg_d, reg_dm, reg_Mm, reg_Jdq, reg_JTw"]))
P.append(p("C11","Physical and regressor inertial parameters are converted consistently",
"Everywhere inertial parameters are converted (in the model, in the generated class, in the parameter-file generator), the regressor parameters of every link are mass, mass times centre of mass, and inertia about the frame origin by the parallel-axis theorem, the inverse conversion undoes it for every non-zero mass, and each link is converted independently. Setting with the inertial setters or loading one parametrization updates the other unless the caller asks for it not to be.",
["inputs","histories"],"all link parameters with non-zero mass, all sequences of sets and loads",only+"unit masses and unit inertias for all links, converted once in one direction.",
[B,W,G],[("update_inertial_DYN / update_inertial_REG",B),("same, generated class",W),("genInertial_files",G)],["get_par_DYN, get_par_REG, *_par_REG.yaml"]))
P.append(p("C12","Symbolic selectivity never changes values, only what can be changed",
"Whatever subset of the parameters (DH table, base and end-effector frames, gravity, inertial, friction, elastic) is marked symbolic, every function evaluates to the same values as the fully symbolic robot with the same parameter values. A function takes a parameter group as argument only if some entry of it is symbolic, and changing the value of a symbolic entry in the model or in the generated class changes exactly that entry and is reflected in every function that depends on it, while fixed entries keep their configured value.",
["configurations","inputs"],"all subsets of symbolic entries over all parameter groups, all parameter values",only+"only all-zero and all-one selections are used and never compared.",
[B,W,U],[("init_symb_parameters / update_symb_parameters / obtain_symb_parameters / add_function",B),("load_conf",W),("change_to_robot",U)],["every exported function"]))
P.append(p("C13","The generated library computes the same functions as the model",
"For every robot, the generated source compiles and its class exposes one getter per function of the model and no other function, with the same dimensions, which returns the same values as evaluating the model at the same state and parameters, after loading the generated configuration file. The optionally saved function files evaluate to the same values too, and the class reports the model's joint count, orders and elastic-joint flags.",
["configurations","inputs"],"all robots and options, all functions, all states",only+"two generated robots, no getter is compared with the model.",
[U,B,W,H,M],[("change_to_robot / get_ret_type",U),("generate_library / get_functions",B)],["thunder_<name> class, <name>_gen, *.casadi"]))
P.append(p("C14","Results depend only on the last accepted inputs, never on the call history",
"In the model and in the generated class, a setter with a value of the right dimension replaces exactly that quantity, a setter with a wrong dimension changes nothing at all, and every getter returns the value implied by the latest accepted inputs whatever sequence of sets, gets, saves and invalid calls preceded it. Getters have no side effects, and instances and robots in one program do not influence each other.",
["histories","inputs"],"all finite sequences of setter, getter, load and save calls, valid and invalid, on one or several instances",only+"a single straight-line sequence of valid calls.",
[W,B,U],[("setters / setArguments",W),("set_* / set_arg / get",B),("generated getters",U)],["all getters and parameter getters"]))
P.append(p("C15","Saving and loading configurations and parameters loses nothing",
"A configuration or parameter file written by the model, the command line or the generated class and read back by any of them that accepts that format restores exactly the same values (to the last bit where no conversion is involved), for every robot and every finite value including tiny, huge and negative ones, and loading it again changes nothing. Which entries a generated class holds is decided when it is generated: it takes the values of any configuration of the robot, whatever entries that file marks as symbolic. Saving never modifies the robot, and a failed load reports an error and leaves the program running.",
["histories","inputs"],"all parameter values, file formats and save/load sequences",only+"files are loaded once with unit values; nothing is read back.",
[B,W,G],[("save_conf / save_par / save_par_REG / load_par / load_par_REG / load_conf_par",B),("save_* / load_*",W)],["written YAML files and parameters after reload"]))
P.append(p("C16","Generated classes are safe to use from several threads",
"Instances of generated classes used concurrently from different threads (also instances of different robots, and one instance whose inputs are fixed and read by several threads) are free of data races, and every call returns the value it returns in a single-threaded run, under every interleaving.",
["schedules"],"all interleavings of calls from any number of threads, one instance per thread or a shared read-only instance",only+"all tests are single-threaded.",
[U,W],[("thread_local work buffers in generated getters",U)],["getter results per thread; data-race reports"]))
P.append(p("C17","No memory error or undefined behaviour on any valid robot or call sequence",
"For every valid configuration (any supported joint types, orders, selections, sizes, optional sections present or absent) the whole pipeline, loading, building, evaluating, saving, generating and using the generated class, performs no out-of-bounds access, use after free, read of uninitialised memory or other undefined behaviour, and its results do not depend on uninitialised memory. This includes calls with arguments of wrong dimension.",
["inputs","configurations","histories"],"all valid configurations and call sequences",only+"the tests run without sanitizers, on fully specified configurations.",
[B,U,W,D,K,R,G,F],[("parse_config / load_conf_par / get_arg / get_par_DYN",B),("change_to_robot",U)],["sanitizer reports, uninitialised-memory differentials"]))
P.append(p("C18","Malformed configurations are rejected with an error, never misused",
"A configuration that is missing, unreadable, lacks a required section, or whose vectors do not match the declared number of joints or orders (joint types, DH table, frames, gravity, symbolic flags, friction, elastic coefficients) or uses an unknown joint type makes robot construction fail with an error and without touching memory out of bounds. Surplus unknown keys, comments, extra links beyond the number of joints, and surplus trailing friction or elastic coefficients do not make a valid robot fail and do not change its results.",
["inputs","fault_sequences"],"all ways to drop, truncate, extend or retype an element of a configuration file",only+"tests only use well-formed files.",
[B],[("parse_config / load_config / initVarsFuns / load_conf_par",B)],["exception or no robot; sanitizer reports"]))
P.append(p("C19","Command-line generation produces a complete, self-consistent library",
"For every valid configuration file path and robot name, generation creates in the current directory one folder named after the robot with the generated source and header, the wrapper class source and header named after the robot, and the configuration and regressor-parameter files holding the robot's values; no template placeholder that the options in use should have filled remains and nothing outside that folder is written unless copying is requested. The output compiles, several generated robots with different names can be linked into one program, the python and function-file options add their files (with bindings for every getter) without changing the rest, the copy option puts identical copies into the consumer projects, and generation is deterministic and idempotent.",
["configurations","histories"],"all configuration paths, names, option combinations and repeated runs",only+"only the copy option with two fixed robots from one directory; outputs are not compared.",
[M,U,B,H,W,"src/thunder/thunder_robot_template/CMakeLists.txt"],[("main / copy_to",M),("change_to_robot / update_cmake / add_bindings_template",U)],["generated folder contents"]))
P.append(p("C20","Frame rotations and body-inertia transforms are physically consistent",
"Every roll-pitch-yaw rotation helper returns the proper rotation Rz(yaw) Ry(pitch) Rx(roll) for all angles, and frame-offset transforms built from the same angles agree with the kinematics. Moving a body's inertial properties to another frame keeps its mass and the eigenvalues of its inertia and maps its centre of mass and inertia by that rigid transform, and merging two bodies keeps total mass, first moment and inertia about any point, independently of the order; the URDF-to-DH conversion program applies exactly this to each link, and refuses, with an error and writing nothing, input that lacks or misshapes what it needs.",
["inputs"],"all angles, offsets, masses, inertias",only+"the conversion program is only built, and the helpers are never called.",
[U,F,Y,YM],[("rpyRot / transformBodyInertial / mergeBodyInertial",U),("get_rotation / get_transform",F),("same, conversion program",Y)],["returned matrices and body properties; generated YAML"]))
P.append(p("C21","User-added functions become ordinary functions of model and library",
"Any expression over the model added under a new name, before or after the robot is finalised, is evaluated by name at the current inputs with correct values and dimensions (scalar, vector, matrix; with or without arguments), is listed with its description and arguments, and is exported to the generated class like the built-in ones. Adding under an existing name replaces it when overwriting is allowed and is refused without any change otherwise, an addition that fails (unknown argument, expression of something that is not an argument) changes nothing, and no other function's value changes.",
["configurations","histories"],"all expressions, argument subsets, symbolic selections, names, and orders of adding",only+"no test adds a function.",
[B,X,U],[("add_function / get_functions",B),("compute_userDefined / compute_example_fun",X)],["get(name), get_functions, generated getters"]))
P.append(p("C22","Whole robots: every function of realistic and of long chains is right together",
"Every robot description that comes with the repository (from three to thirty joints, rigid and elastic), and every robot of the same structure with other values and other symbolic selections, is accepted by the model and by the command line; it has exactly the functions that its description calls for; each of them, evaluated in the model and in the generated class loaded with the configuration written next to it, has the value that rigid-body physics gives for the parameters in the description; and the symbolic parameters and the regressor parameters start from the values in the description.",
["inputs","configurations"],"all shipped descriptions, variants of them in values and selections, and all states",only+"the shipped robots are only timed or printed.",
[K,D,R,B,W,U,M,"robots","src/thunder/robots"],[("Robot construction / load_conf",B),("compute_kinematics / compute_dynamics / compute_regressors",K)],["every function of model and generated class"]))
P.append(p("C23","Building a robot step by step gives the same robot",
"Whatever order, part or repetition of the building steps a program uses between preparing and finalising the symbolic parameters (transforms, Jacobians, their derivatives, mass, Coriolis and gravity, friction, elastic terms, dynamic derivatives, and each group of regressors; singly or together, with or without the advanced functions; also with other robots built in between), each step computes first what it needs, adds exactly its functions and removes none; every function has the arguments, size, description and values of the robot built in one call, also after its symbolic parameters change; and the function objects that the model hands out evaluate to those values.",
["inputs","configurations","histories"],"all orders, subsets and repetitions of the building steps, all robots",only+"robots are only built in one call.",
[K,D,R,B],[("guards of compute_chain / compute_jacobians / compute_MCG / compute_elastic / compute_Dl in the steps that build on them",K),("add_function / get_functions",B)],["get_functions, get(name) and function objects after each step"]))
P.append(p("C24","Failed writes are reported, never taken for success",
"Whenever a file that the model, a generated class, the command line or the URDF conversion is to write cannot be written completely (folder missing, something in its place, disk full, size limit, a failing or shortened write, at any file and at any point), the operation reports failure and never success, the program does not crash, the robot keeps its values, and the same operation succeeds, with complete files, once the obstacle is gone. Interruptions and partial writes that lose nothing do not matter, and whenever success is reported every file is there and complete.",
["fault_sequences","inputs"],"all files, all write operations, all faults of these operations",only+"no test lets a write fail.",
[B,W,G,U,M,YM],[("save_conf / save_par / save_par_REG / generate_library",B),("save_*",W),("main / copy_to",M),("change_to_robot / update_cmake",U),("main",YM)],["return values and messages; written files"]))
P.append(p("C25","Repeated use consumes nothing and keeps its values",
"A program can use models and generated classes without end: whatever operations are repeated (construction, copying and destruction, setting, refused values, evaluation at ever new states, in short-lived threads too, adding the same functions, saving, loading, failed loads and constructions, generation), memory in use and open files do not grow with the number of repetitions, and equal operations on equal values return equal results at every repetition.",
["histories"],"all sequences of operations, repeated any number of times",only+"every test calls each operation a few times at most.",
[B,W,U],[("get / set_arg / add_function / load_* / save_*",B),("setters, load_* and save_*",W),("generated getters",U)],["heap in use, open files, values after each repetition"]))
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),max(len(x['title']) for x in P))
