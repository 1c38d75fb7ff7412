"""The planted bugs: edits of /repo, and a demonstration of each. seedtest.py writes them to /verif/seeded."""
T = "src/thunder/"
K, D, R, B, U, G, F = [T + "src/" + f for f in ("kinematics.cpp", "dynamics.cpp", "regressors.cpp", "robot.cpp", "utils.cpp", "genYaml.cpp", "FrameOffset.cpp")]
W, H, M = T + "thunder_robot_template/thunder_robot.cpp", T + "thunder_robot_template/thunder_robot.h", T + "thunder_main.cpp"
Y, YM = "src/genYAML/src/urdf2dh_inertial.cpp", "src/genYAML/main_YAML.cpp"
SEEDS = []


def S(id, needs, breaks, edits, body=None, head="", **files):
    """body: statements of main() of an engine demonstration; files: other files"""
    fs = {k.replace("__", "."): v for k, v in files.items()}
    if body is not None:
        fs["demo.cpp"] = head + '#include "demo.hpp"\n\nint main() {\n' + body.strip("\n") + "\n\treturn bad_ != 0;\n}\n"
    SEEDS.append(dict(id=id, prop=id.split("-")[0].upper(), needs=needs, breaks=breaks, edits=edits, files=fs))


HEADS = '#!/bin/bash\n. "$(dirname "$0")/common.sh"\n'

# ---------------------------------------------------------------- C01
S("c01-psea-variable", "an elastic prismatic joint (P_SEA)", "the joint variable of an elastic prismatic joint is added to the angle theta",
  [(K, 'if ((jointType == "P")||(jointType == "P_SEA")) {\n\t\t\td = rowDHTable(2) + qi;', 'if (jointType == "P") {\n\t\t\td = rowDHTable(2) + qi;'),
   (K, 'else if ((jointType == "R")||(jointType == "R_SEA")) {\n\t\t\td = rowDHTable(2);', 'else if ((jointType == "R")||(jointType.find("_SEA") != std::string::npos)) {\n\t\t\td = rowDHTable(2);')],
  """
	Spec s = spec({"R", "P_SEA", "R_SEA"}, 0, 1, 1, 1);
	Robot r = make(s);
	VectorXd q = rv(3);
	r.set_q(q);
	for (int i = 0; i <= 4; i++) near(r.get("T_0_" + std::to_string(i)), fk(s, q, i), "T_0_" + std::to_string(i));
""")
S("c01-small-angles", "an angle of the table or of a frame within 1e-6 of a multiple of pi/2 and not equal to it", "small sines and cosines are dropped, rotations are wrong by 1e-7 and not orthonormal",
  [(K, "constexpr double EPSILON = 1e-15;", "constexpr double EPSILON = 1e-6;")],
  """
	Spec s = spec({"R", "R", "R"});
	s.DH[5] = 5e-7; s.base[4] = M_PI / 2 - 4e-7;
	Robot r = make(s);
	VectorXd q = rv(3);
	r.set_q(q);
	for (int i = 0; i <= 4; i++) near(r.get("T_0_" + std::to_string(i)), fk(s, q, i), "T_0_" + std::to_string(i), 1e-10);
""")
S("c01-gimbal", "a base or end-effector frame with a pitch of exactly -pi/2", "the yaw and roll of a frame in gimbal lock are combined with the wrong sign when the pitch is negative",
  [(K, "R = casadi::SX::mtimes(casadi::SX::mtimes(R_z(psi), R_y(theta)), R_x(phi));",
    "if (theta.is_constant() && std::abs(std::abs(static_cast<double>(theta)) - M_PI_2) < 1e-12)\n"
    "\t\t\tR = casadi::SX::mtimes(R_z(psi - phi), R_y(theta));\t// singular representation, only one angle matters\n"
    "\t\telse\n"
    "\t\t\tR = casadi::SX::mtimes(casadi::SX::mtimes(R_z(psi), R_y(theta)), R_x(phi));")],
  """
	for (double sgn : {1.0, -1.0}) {
		Spec s = spec({"R", "P"});
		s.ee[4] = sgn * M_PI / 2;
		Robot r = make(s);
		VectorXd q = rv(2);
		r.set_q(q);
		near(r.get("T_0_ee"), fk(s, q, 3), "T_0_ee");
	}
""")
S("c01-second-row", "a chain of at least two joints whose DH row repeats the row before it with another joint type", "the link transform is reused when two rows of the table are equal",
  [(K, "Ti[i+1] = DHTemplate(par_DHtable(row_i), q(i), jointsType[i]);",
    "// equal rows have equal transforms, apart from the joint variable\n"
    "\t\t\tif (i>0 && casadi::SX::is_equal(par_DHtable(row_i), par_DHtable(casadi::Slice((i-1)*4, i*4)), 2)) Ti[i+1] = casadi::SX::substitute(Ti[i], q(i-1), q(i));\n"
    "\t\t\telse Ti[i+1] = DHTemplate(par_DHtable(row_i), q(i), jointsType[i]);")],
  """
	Spec s = spec({"R", "P", "R"});
	for (int k = 0; k < 4; k++) s.DH[4 + k] = s.DH[k];
	Robot r = make(s);
	VectorXd q = rv(3);
	r.set_q(q);
	for (int i = 0; i <= 4; i++) near(r.get("T_0_" + std::to_string(i)), fk(s, q, i), "T_0_" + std::to_string(i), 1e-10);
""")
# ---------------------------------------------------------------- C02
S("c02-cm-psea", "an elastic prismatic joint before a link", "the centre-of-mass Jacobian takes elastic prismatic joints for rotational ones",
  [(D, 'if ((jointsType[j] == "P")||(jointsType[j] == "P_SEA")) {\n\t\t\t\t\tJci_pos(allRows, j) = kj;', 'if (jointsType[j] == "P") {\n\t\t\t\t\tJci_pos(allRows, j) = kj;'),
   (D, 'else if ((jointsType[j] == "R")||(jointsType[j] == "R_SEA")) {\n\t\t\t\t\tJci_pos(allRows, j) = mtimes(hat(kj),O_jCi);',
    'else if ((jointsType[j] == "R")||(jointsType[j].size() > 1)) {\n\t\t\t\t\tJci_pos(allRows, j) = mtimes(hat(kj),O_jCi);')],
  """
	Spec s = spec({"R", "P_SEA", "R"}, 0, 1, 0, 0);
	Robot r = make(s);
	VectorXd q = rv(3);
	r.set_q(q);
	for (int i = 0; i < 3; i++) near(r.get("J_cm_" + std::to_string(i + 1)), jac(s, q, i + 1, {s.dyn[i][1], s.dyn[i][2], s.dyn[i][3]}), "J_cm_" + std::to_string(i + 1), 1e-7);
""")
S("c02-ee-prismatic", "a chain ending with a prismatic joint after a rotational one, with a translated end effector", "the end-effector offset is ignored by the Jacobian when the last joint is prismatic",
  [(K, "if(i==nj){\n\t\t\t\tcasadi::SX R0i", "if(i==nj && jointsType[i_mod][0]=='R'){\t// a prismatic joint does not rotate the end-effector\n\t\t\t\tcasadi::SX R0i")],
  """
	Spec s = spec({"R", "R", "P"});
	Robot r = make(s);
	VectorXd q = rv(3);
	r.set_q(q);
	near(r.get("J_ee"), jac(s, q, 4), "J_ee", 1e-7);
""")
S("c02-ee-axial", "an end-effector offset whose x component is zero and the others are not", "offsets taken for axial ones are dropped from the end-effector Jacobian",
  [(K, "casadi::SX ee_tr = get_transform(par_Ln2EE)(r_tra_idx,3);",
    "casadi::SX T_ee = get_transform(par_Ln2EE), ee_tr = T_ee(r_tra_idx,3);\n\t\t\t\t// an offset along the axis of the last joint does not move with it\n\t\t\t\tif (ee_tr(0).is_zero()) ee_tr(1) = 0;")],
  """
	Spec s = spec({"R", "R", "R"});
	s.ee[0] = 0;
	Robot r = make(s);
	VectorXd q = rv(3);
	r.set_q(q);
	near(r.get("J_ee"), jac(s, q, 4), "J_ee", 1e-7);
""")
# ---------------------------------------------------------------- C03
S("c03-square-pinv", "a robot of exactly six joints", "the pseudo-inverse of a square Jacobian is not damped, it diverges at singular configurations",
  [(K, "casadi::SX invJn_dumped = casadi::SX::inv(casadi::SX::mtimes({Jn,Jn.T()}) + casadi::SX::eye(6)*MU);",
    "double mu = (Jn.size2() == 6) ? MU*MU : MU;\t// a square jacobian needs less damping\n\t\tcasadi::SX invJn_dumped = casadi::SX::inv(casadi::SX::mtimes({Jn,Jn.T()}) + casadi::SX::eye(6)*mu);")],
  """
	Spec s = spec({"R", "R", "R", "P", "R", "R"});
	put("robot.yaml", yaml(s));
	Robot r("robot.yaml");
	r.load_conf_par("robot.yaml");
	r.init_symb_parameters();
	compute_kinematics(r, true);
	r.update_symb_parameters();
	VectorXd q = rv(6);
	r.set_q(q);
	MatrixXd J = r.get("J_ee"), A = J * J.transpose() + 0.02 * MatrixXd::Identity(6, 6);
	near(r.get("J_ee_pinv"), J.transpose() * A.inverse(), "J_ee_pinv", 1e-7);
""")
S("c03-ddJ-cross", "joint accelerations and a second derivative of the end-effector Jacobian with at least three joints", "the acceleration part of the second derivative of the end-effector Jacobian ignores the first joint when the base does not rotate",
  [(K, "casadi::SX ddJn = casadi::SX::jtimes(dJn,q,dq) + casadi::SX::jtimes(dJn,dq,ddq);",
    "casadi::SX ddJn = casadi::SX::jtimes(dJn,q,dq);\n"
    "\t\t// a first prismatic joint does not turn the others: the jacobian is quadratic in the joint velocities\n"
    "\t\tif (robot.get_numJoints() <= 2 || robot.get_jointsType()[0][0]!='P') ddJn += casadi::SX::jtimes(dJn,dq,ddq);")],
  """
	Spec s = spec({"P", "R", "R"});
	Robot r = make(s);
	VectorXd q = rv(3), dq = rv(3), ddq = rv(3);
	auto J = [&](double t) { r.set_q(q + dq * t + ddq * t * t / 2); r.set_dq(dq + ddq * t); return MatrixXd(r.get("J_ee_dot")); };
	MatrixXd want = diff(J);
	r.set_q(q); r.set_dq(dq); r.set_arg("ddq", ddq);
	near(r.get("J_ee_ddot"), want, "J_ee_ddot", 1e-6);
""")
# ---------------------------------------------------------------- C04
S("c04-massless", "a link of mass exactly zero (fixed in the configuration) with a rotational inertia", "the inertia of massless links, such as the rotors of motors, is left out of the mass matrix",
  [(D, "// std::cout<<\"mi: \"<<mi<<std::endl;", "if (mi.is_zero()) continue; // nothing to add")],
  """
	Spec s = spec({"R", "R"});
	s.dyn[1][0] = 0;
	Robot r = make(s);
	VectorXd q = rv(2);
	r.set_q(q);
	near(r.get("M"), mass(s, q), "M", 1e-6);
""")
S("c04-products", "products of inertia Ixy and Ixz that differ", "the inertia matrix of the links is not symmetric: Izx is taken from Ixy",
  [(D, "tempI(2,0) = tempI(0,2);", "tempI(2,0) = tempI(1,0);")],
  """
	Spec s = spec({"R", "R", "R"});
	Robot r = make(s);
	VectorXd q = rv(3);
	r.set_q(q);
	near(r.get("M"), mass(s, q), "M", 1e-6);
""")
S("c04-shared-inertia", "a link with an inertia equal to zero after a link with another one", "a link whose fixed inertia is zero inherits the inertia of the link before it",
  [(D, "\t\t\ttempI(0,0) = par_DYN(i*nParLink+4,0);", "\t\t\t// point masses keep the matrix as it is\n\t\t\tif (!par_DYN(casadi::Slice(i*nParLink+4, i*nParLink+10), 0).is_zero()) tempI(0,0) = par_DYN(i*nParLink+4,0);\n\t\t\telse { _J_3x3_[i] = tempI; continue; }")],
  """
	Spec s = spec({"R", "R", "R"});
	for (int k = 4; k < 10; k++) s.dyn[2][k] = 0;
	Robot r = make(s);
	VectorXd q = rv(3);
	r.set_q(q);
	near(r.get("M"), mass(s, q), "M", 1e-6);
""")
# ---------------------------------------------------------------- C05
S("c05-classic-range", "the classic Coriolis matrix at a non-zero velocity of an early joint", "the classic formulation leaves out the terms of the joints before both indexes",
  [(D, "for (int k = 0; k < n; k++) {\n\t\t\t\t\tcasadi::SX dbhj_dqk", "for (int k = std::min(h,j); k < n; k++) {\t// the inertia does not depend on the previous joints\n\t\t\t\t\tcasadi::SX dbhj_dqk")],
  """
	Spec s = spec({"R", "R", "R"});
	Robot r = make(s);
	r.set_q(rv(3)); r.set_dq(rv(3));
	near(r.get("C_std"), r.get("C"), "C_std", 1e-9);
""")
S("c05-sel-large", "at least four joints, all moving", "the selection matrix of the velocities is truncated to the first three joints, which changes C and the regressors alike",
  [(D, "mat_dq(allRows, sel_col) = casadi::SX::eye(n)*dq(i);", "mat_dq(allRows, sel_col) = casadi::SX::eye(n)*dq(i<3 ? i : n-1);")],
  """
	Spec s = spec({"R", "R", "P", "R", "R"});
	put("robot.yaml", yaml(s));
	Robot r("robot.yaml");
	r.load_conf_par("robot.yaml");
	r.init_symb_parameters();
	compute_chain(r);
	compute_MCG(r);
	r.update_symb_parameters();
	VectorXd q = rv(5), dq = rv(5);
	MatrixXd dM = diff([&](double t) { r.set_q(q + dq * t); return MatrixXd(r.get("M")); });
	MatrixXd grad(5, 1);
	for (int k = 0; k < 5; k++)
		grad(k, 0) = diff([&](double t) { VectorXd x = q; x(k) += t; r.set_q(x); return MatrixXd(dq.transpose() * r.get("M") * dq); })(0, 0);
	r.set_q(q); r.set_dq(dq);
	near(r.get("C") * dq, dM * dq - grad / 2, "Coriolis torque", 1e-6);
""")
# ---------------------------------------------------------------- C06
S("c06-horizontal", "a fixed gravity vector without a z component", "horizontal gravity is taken for no gravity",
  [(D, "casadi::SX g = par_gravity;\n\n\t\tcasadi::SX M(nj,nj);", "casadi::SX g = par_gravity(2).is_zero() ? casadi::SX::zeros(3,1) : par_gravity;\t// zeros: no gravity\n\n\t\tcasadi::SX M(nj,nj);")],
  """
	Spec s = spec({"R", "R", "R"});
	s.grav = {-9.81, 0, 0};
	Robot r = make(s);
	VectorXd q = rv(3);
	r.set_q(q);
	near(r.get("G"), grad_potential(s, q), "G", 1e-6);
""")
S("c06-tilted-base", "a base frame rotated about two axes", "gravity is expressed in the frame of the base instead of the world when the base is tilted",
  [(D, "J_tuple = DHJacCM(robot);\n\t\tJci = std::get<0>(J_tuple);\n\t\tJwi = std::get<1>(J_tuple);", "std::tie(Jci, Jwi) = DHJacCM(robot);\n\t\tcasadi::SX Rb = casadi::SX(robot.model[\"T_0_0\"])(selR,selR);\n\t\tif (!Rb(2,0).is_zero() && !Rb(2,1).is_zero()) g = casadi::SX::mtimes(Rb, g);\t// tilted base")],
  """
	Spec s = spec({"R", "P"});
	Robot r = make(s);
	VectorXd q = rv(2);
	r.set_q(q);
	near(r.get("G"), grad_potential(s, q), "G", 1e-6);
""")
# ---------------------------------------------------------------- C07
S("c07-jerk", "a non-zero jerk", "the second derivative of the Coriolis matrix does not depend on the jerk",
  [(D, " + casadi::SX::jtimes(dC,dq,ddq) + casadi::SX::jtimes(dC,ddq,d3q);", " + casadi::SX::jtimes(dC,dq,ddq);")],
  """
	Spec s = spec({"R", "R"});
	Robot r = make(s);
	VectorXd q = rv(2), dq = rv(2), ddq = rv(2), d3q = rv(2);
	auto f = [&](double t) { r.set_q(q + dq * t + ddq * t * t / 2); r.set_dq(dq + ddq * t + d3q * t * t / 2); r.set_arg("ddq", ddq + d3q * t); return MatrixXd(r.get("C_dot")); };
	MatrixXd want = diff(f);
	f(0); r.set_arg("d3q", d3q);
	near(r.get("C_ddot"), want, "C_ddot", 1e-5);
""")
S("c07-gravity-symbolic", "symbolic gravity, and the second derivative of the gravity term at a non-zero acceleration", "the second derivative of the gravity vector ignores accelerations when gravity is a parameter",
  [(D, "casadi::SX ddG = casadi::SX::jtimes(dG,q,dq) + casadi::SX::jtimes(dG,dq,ddq);",
    "casadi::SX ddG = casadi::SX::jtimes(dG,q,dq);\n\t\tif (robot.obtain_symb_parameters({}, {\"par_gravity\"}).empty()) ddG = ddG + casadi::SX::jtimes(dG,dq,ddq);")],
  """
	Spec s = spec({"R", "R", "R"});
	s.sgrav = {0, 0, 1};
	Robot r = make(s);
	VectorXd q = rv(3), dq = rv(3), ddq = rv(3);
	auto f = [&](double t) { r.set_q(q + dq * t + ddq * t * t / 2); r.set_dq(dq + ddq * t); return MatrixXd(r.get("G_dot")); };
	MatrixXd want = diff(f);
	f(0); r.set_arg("ddq", ddq);
	near(r.get("G_ddot"), want, "G_ddot", 1e-5);
""")
# ---------------------------------------------------------------- C08
S("c08-basis", "a product of inertia Iyz and a motion", "the basis matrix of Iyz in the regressor is not symmetric",
  [(R, "\t\tE_[4](2,1) = 1;\n", "")],
  """
	Spec s = spec({"R", "R", "R"});
	Robot r = make(s);
	r.set_q(rv(3)); r.set_dq(rv(3)); VectorXd a = rv(3), v = rv(3); r.set_dqr(v); r.set_ddqr(a);
	near(r.get("Yr") * r.get_par_REG(), r.get("M") * a + r.get("C") * v + r.get("G"), "Yr", 1e-9);
""")
S("c08-regC-sign", "a non-zero velocity and the separate Coriolis regressor", "the inertia columns of the Coriolis regressor have the wrong sign, the full regressor is right",
  [(R, "casadi::SX reg_C_i = horzcat(-W0r_i, -W1r_i, -W2r_i);", "casadi::SX reg_C_i = -horzcat(W0r_i, W1r_i, -W2r_i);")],
  """
	Spec s = spec({"R", "R", "R"});
	Robot r = make(s);
	r.set_q(rv(3)); r.set_dq(rv(3)); VectorXd v = rv(3); r.set_dqr(v);
	near(r.get("reg_C") * r.get_par_REG(), r.get("C") * v, "reg_C", 1e-9);
""")
S("c08-gravity-prismatic", "a prismatic joint and moments of mass", "the gravity columns of the moments of mass are taken from the joint axis, which is wrong when a prismatic joint comes in between",
  [(R, "casadi::SX Z1r_i= -(jacobian(mtimes(R0i.T(),g),q)).T();",
    "casadi::SX Z1r_i(nj,3);\n\t\t\tfor (int j=0; j<=i; j++){\n\t\t\t\tcasadi::SX zj = robot.model[\"T_0_\"+std::to_string(j+1)](selR,2);\n\t\t\t\tZ1r_i(j,casadi::Slice(0,3)) = -mtimes(mtimes(g.T(),hat(zj)),R0i);\n\t\t\t}")],
  """
	Spec s = spec({"R", "P", "R"});
	Robot r = make(s);
	r.set_q(rv(3));
	near(r.get("reg_G") * r.get_par_REG(), r.get("G"), "reg_G", 1e-9);
""")
# ---------------------------------------------------------------- C09
S("c09-order4", "friction of the links of order four or more at a negative velocity", "the fourth-order friction of the links is even in the velocity",
  [(D, "dl(i) += sqrt(pow(dq(i), 2)) * pow(dq(i), ord) * par_Dl(i*Dl_order+ord);", "dl(i) += (ord<2 ? sqrt(pow(dq(i), 2)) : dq(i)) * pow(dq(i), ord) * par_Dl(i*Dl_order+ord);")],
  """
	Spec s = spec({"R", "P"}, 4);
	Robot r = make(s);
	VectorXd v(2); v << -1.3, -0.4;
	r.set_dq(v);
	MatrixXd want = MatrixXd::Zero(2, 1);
	for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) want(i) += s.Dl[i][k] * std::pow(std::abs(v(i)), k) * v(i);
	near(r.get("dl"), want, "dl");
""")
S("c09-motor-index", "two elastic joints and more orders of motor friction than of coupling damping", "the motor friction of the second elastic joint uses the coefficients at the stride of the coupling damping",
  [(D, "dm(i) += pow(dx(i), ord+1) * par_Dm(i*Dm_order+ord);", "dm(i) += pow(dx(i), ord+1) * par_Dm(i*std::min(D_order,Dm_order)+ord);")],
  """
	Spec s = spec({"R_SEA", "R_SEA"}, 0, 1, 1, 3);
	Robot r = make(s);
	VectorXd v = rv(2);
	r.set_dx(v);
	MatrixXd want = MatrixXd::Zero(2, 1);
	for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) want(i) += s.Dm[i][k] * std::pow(std::abs(v(i)), k) * v(i);
	near(r.get("dm"), want, "dm");
""")
S("c09-stiffness-matrix", "an elastic model with stiffness of two or more orders and different coefficients", "the matrices of the higher orders of stiffness hold the coefficient of the first order",
  [(D, "K_vec[ord](i,i) = par_K(i*K_order + ord);", "K_vec[ord](i,i) = par_K(i*K_order + (i==ord ? ord : 0));")],
  """
	Spec s = spec({"R_SEA", "R", "R_SEA"}, 0, 2, 0, 0);
	Robot r = make(s);
	for (int k = 0; k < 2; k++) {
		MatrixXd want = MatrixXd::Zero(2, 2);
		for (int i = 0; i < 2; i++) want(i, i) = s.K[i][k];
		near(r.get("K" + std::to_string(2 * k + 1)), want, "K" + std::to_string(2 * k + 1));
	}
""")
# ---------------------------------------------------------------- C10
REGJ_W = "\t\t// parse world2L0\n\t\tfor (int i=0; i<par_world2L0.size1(); i++){\n\t\t\tif (world2L0_symb[i]){\n\t\t\t\tpar_symb.push_back(par_world2L0(i));\n\t\t\t}\n\t\t}\n"
REGJ_E = "\t\t// parse Ln2EE\n\t\tfor (int i=0; i<par_Ln2EE.size1(); i++){\n\t\t\tif (Ln2EE_symb[i]){\n\t\t\t\tpar_symb.push_back(par_Ln2EE(i));\n\t\t\t}\n\t\t}\n"
S("c10-order", "symbolic parameters both in the base and in the end-effector frame", "the columns of the kinematic regressors of the base come after those of the end effector",
  [(R, REGJ_W + REGJ_E, REGJ_E + REGJ_W)],
  """
	Spec s = spec({"R", "P"});
	s.sbase = {1, 0, 0, 1, 0, 0}; s.see = {0, 1, 0, 0, 0, 1};
	Robot r = make(s);
	VectorXd q = rv(2), dq = rv(2);
	r.set_q(q); r.set_dq(dq);
	MatrixXd reg = r.get("reg_Jdq");
	ok(reg.cols() == 4, "four columns");
	VectorXd b = r.get_arg("par_world2L0"), b2 = b;
	MatrixXd d = diff([&](double h) { b2 = b; b2(0) += h; r.set_arg("par_world2L0", b2); return MatrixXd(r.get("J_ee") * dq); });
	near(reg.col(0), d, "first column", 1e-6);
	r.set_arg("par_world2L0", b);
	d = diff([&](double h) { b2 = b; b2(1) += h; r.set_arg("par_world2L0", b2); return MatrixXd(r.get("J_ee") * dq); });
	near(reg.col(1), d, "second column", 1e-6);
""")
S("c10-friction-pattern", "friction coefficients of the links with different symbolic flags in different links", "the columns of the friction regressor are selected with the flags of the first link",
  [(R, "if (par_Dl_symb[i]){", "if (par_Dl_symb[i % Dl_order]){")],
  """
	Spec s = spec({"R", "R"}, 2);
	s.sDl = {{1, 0}, {0, 1}};
	Robot r = make(s);
	VectorXd v = rv(2);
	r.set_dq(v);
	MatrixXd want = MatrixXd::Zero(2, 2);
	want(0, 0) = v(0); want(1, 1) = std::abs(v(1)) * v(1);
	near(r.get("reg_dl"), want, "reg_dl");
""")
S("c10-exists", "symbolic parameters only in the base frame", "the kinematic regressors are not built when no element of the table or of the end effector is symbolic",
  [(R, "if (par.size1() != 0){\n\t\t\tcasadi::SX Jdq", "if (robot.obtain_symb_parameters({}, {\"par_DHtable\", \"par_Ln2EE\"}).size() != 0){\n\t\t\tcasadi::SX Jdq")],
  """
	Spec s = spec({"R", "P"});
	s.sbase = {0, 1, 0, 0, 0, 1};
	Robot r = make(s);
	int n = 0;
	for (auto& f : r.get_functions()) n += f.name == "reg_Jdq" || f.name == "reg_JTw";
	ok(n == 2, "kinematic regressors");
""")
# ---------------------------------------------------------------- C11
S("c11-file-order", "a mass different from one in the parameter-file generator", "the inertia about the origin is computed with the moments of mass instead of the centre of mass",
  [(G, "\t\t\t\tEigen::Matrix3d I0 = IG + m * (hat(dOG).transpose() * hat(dOG));\n\t\t\t\tdOG = m*dOG;\n", "\t\t\t\tdOG = m*dOG;\n\t\t\t\tEigen::Matrix3d I0 = IG + hat(dOG).transpose() * hat(dOG);\n")],
  """
	Spec s = spec({"R", "R"});
	put("c.yaml", yaml(s));
	genInertial_files("x", 2, "c.yaml", "dyn.yaml", "reg.yaml");
	YAML::Node n = YAML::LoadFile("reg.yaml")["dynamics"];
	Robot r = make(s);
	VectorXd reg = r.get_par_REG();
	int i = 0;
	static const char* key[] = {"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
	for (const auto& l : n) {
		for (int k = 0; k < 10; k++) {
			double m = s.dyn[i][0];
			Eigen::Vector3d c(s.dyn[i][1], s.dyn[i][2], s.dyn[i][3]);
			Eigen::Matrix3d I = inertia(s.dyn[i]) + m * (c.dot(c) * Eigen::Matrix3d::Identity() - c * c.transpose());
			double want[] = {m, m * c(0), m * c(1), m * c(2), I(0, 0), I(0, 1), I(0, 2), I(1, 1), I(1, 2), I(2, 2)};
			ok(std::abs(l.second["inertial"][key[k]].as<double>() - want[k]) < 1e-6, key[k]);
			ok(std::abs(reg(10 * i + k) - want[k]) < 1e-9, std::string("model ") + key[k]);
		}
		i++;
	}
""")
GEN_MAIN = r'''#include <cmath>
#include <cstdio>
#include <eigen3/Eigen/Dense>
#include "thunder_arm.h"
using Eigen::VectorXd;
using Eigen::MatrixXd;
static int bad_ = 0;
static void near(const MatrixXd& a, const MatrixXd& b, const char* what, double tol = 1e-9) {
	if (a.rows() != b.rows() || a.cols() != b.cols() || (a.size() && !((a - b).cwiseAbs().maxCoeff() <= tol * (1 + b.cwiseAbs().maxCoeff())))) { bad_++; std::cerr << "FAIL: " << what << "\n" << a << "\n--- expected\n" << b << "\n"; }
}
int main() {
%s
	return bad_ != 0;
}
'''
GEN_SH = HEADS + r'''build mk "$here/mk.cpp"
./mk > mk.log 2>&1 || { tail -5 mk.log; exit 4; }
thunder arm.yaml arm
g++ -std=c++17 -O0 -w -I/usr/include/eigen3 -Iarm_generatedFiles "$here/use.cpp" arm_generatedFiles/*.cpp -lyaml-cpp -o use || exit 1
timeout 100 ./use
'''


def MK(body):
    return '#include "demo.hpp"\n\nint main() {\n' + body.strip("\n") + "\n\treturn bad_ != 0;\n}\n"


S("c11-stale-mass", "regressor parameters set in the generated class with a mass different from the one in use", "the conversion to the physical parameters divides by the mass set before",
  [(W, "Eigen::Vector3d CoM = {p_reg(1)/mass, p_reg(2)/mass, p_reg(3)/mass};",
    "double m_inv = 1/((par_DYN(STD_PAR_LINK*i) != 0) ? par_DYN(STD_PAR_LINK*i) : mass);\n\t\tEigen::Vector3d CoM = {p_reg(1)*m_inv, p_reg(2)*m_inv, p_reg(3)*m_inv};")],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R"})));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	VectorXd p = a.get_par_REG(), d0 = a.get_par_DYN();
	p(0) *= 2; p(10) *= 0.5;
	a.set_par_REG(p);
	VectorXd d = a.get_par_DYN();
	near(d.segment(1, 3), d0.segment(1, 3) / 2, "centre of mass of link 1");
	near(d.segment(11, 3), d0.segment(11, 3) * 2, "centre of mass of link 2");
''')
S("c11-links", "two links with different inertias, set through the regressor parameters of the model", "the second and following links use the correction of the inertia of the link before when the centre of mass is in the origin",
  [(B, "Eigen::Matrix3d I_tmp = mass * (hat(CoM).transpose() * hat(CoM));\n\t\t\tEigen::Matrix<double, 6, 1> I_tmp_v;\n\t\t\tI_tmp_v << I_tmp(0,0), I_tmp(0,1), I_tmp(0,2), I_tmp(1,1), I_tmp(1,2), I_tmp(2,2);\n\t\t\tEigen::Matrix<double, 6, 1> I;\n\t\t\tI << p_reg(4)",
    "static Eigen::Matrix3d I_tmp;\n\t\t\tif (!CoM.isZero(1e-3)) I_tmp = mass * (hat(CoM).transpose() * hat(CoM));\n\t\t\tEigen::Matrix<double, 6, 1> I_tmp_v;\n\t\t\tI_tmp_v << I_tmp(0,0), I_tmp(0,1), I_tmp(0,2), I_tmp(1,1), I_tmp(1,2), I_tmp(2,2);\n\t\t\tEigen::Matrix<double, 6, 1> I;\n\t\t\tI << p_reg(4)")],
  """
	Spec s = spec({"R", "R"});
	for (auto& l : s.sdyn) l.assign(10, 1);
	Robot r = make(s);
	VectorXd p = r.get_par_DYN();
	p.segment(11, 3).setZero();
	r.set_par_DYN(p);
	r.set_par_REG(r.get_par_REG());
	near(r.get_par_DYN(), p, "par_DYN");
""")
# ---------------------------------------------------------------- C12
S("c12-ee-rotation", "an end-effector frame with a symbolic rotation and a translation that is not completely symbolic", "loading a configuration in the generated class puts the rotation of the end effector after three elements",
  [(W, "par_Ln2EE(sz1+sz2) = ypr[i];", "par_Ln2EE(3+sz2) = ypr[i];")],
  demo__sh=GEN_SH, mk__cpp=MK('Spec s = spec({"R", "R"}); s.see = {0, 1, 0, 0, 1, 1}; s.ee = {1, 2, 3, .4, .5, .6}; put("arm.yaml", yaml(s));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	VectorXd w(3); w << 2, .5, .6;
	near(a.get_par_Ln2EE(), w, "par_Ln2EE");
''')
S("c12-single-precision", "a configuration value that is not a float, marked as fixed", "fixed parameters are rounded to single precision",
  [(B, "model[par](i) = (double)args[par](i);", "model[par](i) = (float)(double)args[par](i);")],
  """
	Spec a = spec({"R", "P"}), b = a;
	b.sDH.assign(8, 1); b.sdyn = {std::vector<int>(10, 1), std::vector<int>(10, 1)};
	Robot x = make(a), y = make(b);
	VectorXd q = rv(2);
	x.set_q(q); y.set_q(q);
	near(x.get("T_0_ee"), y.get("T_0_ee"), "T_0_ee", 1e-12);
	near(x.get("M"), y.get("M"), "M", 1e-12);
""")
S("c12-gravity-arg", "symbolic gravity marked only in its first or second component", "only the last flag of gravity decides if the functions take it as argument",
  [(B, 'this->symb["par_gravity"] = config_file["gravity"]["symb"].as<std::vector<int>>();\n\t\t\telse this->symb["par_gravity"].assign(3, 0);', 'this->symb["par_gravity"] = config_file["gravity"]["symb"].as<std::vector<int>>();\n\t\t\tif (this->symb["par_gravity"].size()!=3 || !this->symb["par_gravity"][2]) this->symb["par_gravity"].assign(3, 0);\t// nothing to identify')],
  """
	Spec s = spec({"R", "R"});
	s.sgrav = {1, 0, 0};
	Robot r = make(s);
	VectorXd q = rv(2);
	r.set_q(q);
	MatrixXd g0 = r.get("G");
	VectorXd g(1); g << 5;
	r.set_arg("par_gravity", g);
	s.grav[0] = 5;
	near(r.get("G"), grad_potential(s, q), "G", 1e-6);
""")
# ---------------------------------------------------------------- C13
S("c13-orders", "an elastic robot whose damping orders differ", "the generated class reports the order of the coupling damping as the one of the motor friction",
  [(U, 'replace_all(file_content_h, "/*#-Dm_order-#*/", to_string(Dm_order));', 'replace_all(file_content_h, "/*#-Dm_order-#*/", to_string(ELASTIC ? std::min(D_order, Dm_order) : 0));')],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R_SEA"}, 1, 1, 1, 2)));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a;
	if (a.Dm_order != 2 || a.D_order != 1) bad_++;
''')
S("c13-row-vectors", "a robot of one joint, whose regressors are row vectors", "functions that return one row are declared as column vectors",
  [(U, 'string ret_type = "Eigen::Matrix<double,"+to_string(out_size[0])+","+to_string(out_size[1])+">";',
    'bool row = out_size[0]==1 && out_size[1]>1;\t// vectors are columns\n\t\tstring ret_type = "Eigen::Matrix<double,"+to_string(out_size[row ? 1 : 0])+","+to_string(out_size[row ? 0 : 1])+">";')],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R"})));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	MatrixXd Y = a.get_Yr();
	if (Y.rows() != 1 || Y.cols() != 10) { bad_++; std::cerr << Y.rows() << "x" << Y.cols() << "\n"; }
''')
S("c13-elastic-flags", "a chain with both elastic and rigid joints", "the flags of the elastic joints of the generated class repeat the one before when the orders are odd",
  [(U, 'eJ_str += ", " + to_string(isElasticJoint[i]);', 'eJ_str += ", " + to_string(isElasticJoint[i] && isElasticJoint[i-1]);')],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R_SEA", "R", "R_SEA"}, 1, 1, 1, 2)));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a;
	int want[] = {1, 0, 1};
	for (int i = 0; i < 3; i++) if (a.isElasticJoint[i] != want[i]) bad_++;
''')
# ---------------------------------------------------------------- C14
S("c14-partial", "setArguments with one vector of a wrong dimension", "the vectors of the right dimension are accepted although the call is refused",
  [(W, "\tif(q_.size() == n_joints && dq_.size()== n_joints && dqr_.size()==n_joints && ddqr_.size()==n_joints){\n\t\tq = q_;\n\t\tdq = dq_;", "\tif(q_.size() == n_joints) q = q_;\n\tif(q_.size() == n_joints && dq_.size()== n_joints && dqr_.size()==n_joints && ddqr_.size()==n_joints){\n\t\tdq = dq_;")],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R"})));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	VectorXd q(2), q2(2), w(3); q << .1, .2; q2 << .5, -.9; w.setOnes();
	a.setArguments(q, q, q, q);
	MatrixXd T = a.get_T_0_ee();
	a.setArguments(q2, q, q, w);
	near(a.get_T_0_ee(), T, "T_0_ee after a refused call");
''')
S("c14-constants", "two robots in one program with different fixed base frames", "the value of functions without arguments is kept by name, for all the robots of the program",
  [(B, "int sz = f_args.size();", "int sz = f_args.size();\n\t\t\tstatic std::map<std::string, Eigen::MatrixXd> constants;\t// functions without arguments need one evaluation\n\t\t\tif (sz==0 && constants.count(name)) return constants[name];"),
   (B, "std::transform(res_elements.begin(), res_elements.end(), result_num.data(), mapFunction);\n\t\t\t// cout<<\"result: \"<<result_num<<endl;",
    "std::transform(res_elements.begin(), res_elements.end(), result_num.data(), mapFunction);\n\t\t\tif (sz==0) constants[name] = result_num;")],
  """
	Spec a = spec({"R", "R"}), b = spec({"P", "R"});
	Robot x = make(a), y = make(b);
	near(x.get("T_0"), frame(a.base), "T_0 of the first robot");
	near(y.get("T_0"), frame(b.base), "T_0 of the second robot");
""")
S("c14-unchanged", "an input set again after a parameter changed, with the same value", "setting the joint positions that are already set returns early and forgets the stored velocities",
  [(W, "\tif(dq_.size() == n_joints){\n\t\tdq = dq_;", "\tif(dq_.size() == n_joints){\n\t\tif (!dq_.isApprox(dq, 1e-9)) dq = dq_;\t// nothing new")],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R"}, 1)));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a, b;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	b.load_conf("arm_generatedFiles/arm_conf.yaml");
	VectorXd v(2), w(2); v << 1e6, 1; w << 1e6, 1 + 5e-4;
	a.set_dq(v); a.set_dq(w);
	b.set_dq(w);
	MatrixXd x = a.get_dl(), y = b.get_dl();
	if (!(x.array() == y.array()).all()) { bad_++; std::cerr << x << "\n--- expected\n" << y << "\n"; }
''')
# ---------------------------------------------------------------- C15
S("c15-digits", "a parameter that needs 16 or 17 digits", "parameters are saved with 15 digits",
  [(B, "emitter << yamlFile << YAML::Newline;\n\n\t\t\tstd::ofstream fout(par_file);\n\t\t\tfout << emitter.c_str();\n\t\t\tfout.close();\n\t\t} catch (const YAML::Exception& e) {\n\t\t\tstd::cerr << \"Error while generating YAML: \" << e.what() << std::endl;\n\t\t\treturn 0;\n\t\t}\n\t\treturn 1;\n\t}\n\n\tint Robot::update_inertial_DYN",
    "emitter.SetDoublePrecision(15);\n\t\t\tYAML::Emitter digits;\n\t\t\tdigits.SetSeqFormat(YAML::Flow);\n\t\t\tdigits << YAML::BeginMap;\n\t\t\tfor (auto& par : par_list) {\n\t\t\t\tdigits << YAML::Key << par << YAML::Value << YAML::BeginSeq << YAML::DoublePrecision(15);\n\t\t\t\tEigen::VectorXd v = get_arg(par);\n\t\t\t\tfor (int i=0; i<v.size(); i++) digits << v(i);\n\t\t\t\tdigits << YAML::EndSeq;\n\t\t\t}\n\t\t\tdigits << YAML::EndMap;\n\t\t\temitter << YAML::Load(digits.c_str()) << YAML::Newline;\n\n\t\t\tstd::ofstream fout(par_file);\n\t\t\tfout << emitter.c_str();\n\t\t\tfout.close();\n\t\t} catch (const YAML::Exception& e) {\n\t\t\tstd::cerr << \"Error while generating YAML: \" << e.what() << std::endl;\n\t\t\treturn 0;\n\t\t}\n\t\treturn 1;\n\t}\n\n\tint Robot::update_inertial_DYN")],
  """
	Spec s = spec({"R", "R"});
	for (auto& l : s.sdyn) l.assign(10, 1);
	Robot r = make(s);
	VectorXd p = r.get_arg("par_DYN");
	p(0) = 1.0 / 3; p(3) = 0.1 + 0.2;
	r.set_par_DYN(p);
	r.save_par("p.yaml");
	r.set_par_DYN(p * 2);
	ok(r.load_par("p.yaml"), "load_par");
	ok((r.get_arg("par_DYN").array() == p.array()).all(), "same values");
""")
S("c15-swap", "an elastic robot whose coupling damping and motor friction differ", "the generated class saves the coupling damping under the name of the motor friction as well",
  [(W, "std::vector<double> par_Dm_vect(par_Dm.data(), par_Dm.data() + par_Dm.rows() * par_Dm.cols());", "std::vector<double> par_Dm_vect(par_D.data(), par_D.data() + par_Dm.rows() * par_Dm.cols());")],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R_SEA", "R_SEA"}, 0, 1, 2, 2)));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	a.save_par("p.yaml");
	std::vector<double> v = YAML::LoadFile("p.yaml")["par_Dm"].as<std::vector<double>>();
	near(Eigen::Map<VectorXd>(v.data(), v.size()), a.get_par_Dm(), "par_Dm in the file", 1e-15);
''')
S("c15-ten-links", "ten or more joints", "the links are saved in alphabetical order, link10 before link2, and read back in that order",
  [(W, "\t\tdynamicsNode[nodeName] = linkNode;\n", "\t\tlinks_node[nodeName] = linkNode;\n"),
   (W, "\tyamlFile[\"dynamics\"] = dynamicsNode;\n", "\tfor (auto& l : links_node) dynamicsNode[l.first] = l.second;\n\tyamlFile[\"dynamics\"] = dynamicsNode;\n"),
   (W, "\tYAML::Node yamlFile;\n\tYAML::Node dynamicsNode;\n", "\tYAML::Node yamlFile;\n\tYAML::Node dynamicsNode;\n\tstd::map<std::string, YAML::Node> links_node;\n")],
  demo__sh=HEADS + r'''build mk "$here/mk.cpp"
./mk > mk.log 2>&1 || { tail -5 mk.log; exit 4; }
# a chain of ten joints is slow to derive: the same class with a model of its own
sed -e 's/R_NAME/arm/' "$S/thunder_robot_template/thunder_robot.h" > /dev/null
thunder arm.yaml arm
g++ -std=c++17 -O0 -w -I/usr/include/eigen3 -Iarm_generatedFiles "$here/use.cpp" arm_generatedFiles/thunder_arm.cpp "$here/none.cpp" -Wl,--unresolved-symbols=ignore-all -lyaml-cpp -o use || exit 1
timeout 100 ./use
''', none__cpp="", mk__cpp=MK('std::vector<std::string> t(11, "P"); t[10] = "R"; Spec s = spec(t); for (int i = 0; i < 11; i++) { s.DH[4*i+1] = 0; s.DH[4*i+3] = 0; } put("arm.yaml", yaml(s));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a, b;
	a.load_conf("arm.yaml");
	a.save_par_REG("reg.yaml");
	b.load_par_REG("reg.yaml");
	near(b.get_par_REG(), a.get_par_REG(), "par_REG", 1e-15);
''')
# ---------------------------------------------------------------- C16
THR = GEN_SH.replace("g++ -std=c++17 -O0 -w", "g++ -std=c++17 -O1 -w -pthread")
S("c16-workspace", "the same function of a generated class evaluated by two threads at once", "the result of the generated functions of more than 36 elements is kept in memory shared by all the threads",
  [(U, 'functions_string.append("\\tthread_local double buffer["', 'functions_string.append(string(out_size[0]*out_size[1]>36 ? "\\tstatic" : "\\tthread_local")+" double buffer["')],
  demo__sh=THR, mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R", "R"})));'), use__cpp="#include <thread>\n#include <atomic>\n" + GEN_MAIN % r'''
	std::atomic<int> wrong{0};
	auto work = [&](int k) {
		thunder_arm a;
		a.load_conf("arm_generatedFiles/arm_conf.yaml");
		VectorXd q(3), v(3); q << .1 * k, .2 * k, -.3; v << 1 + k, 2, 3;
		a.set_q(q); a.set_dqr(v); a.set_ddqr(v); a.set_dq(v);
		MatrixXd first;
		for (int i = 0; i < 40000; i++) {
			MatrixXd C = a.get_Yr();
			if (!i) first = C;
			else if (!(C.array() == first.array()).all()) wrong++;
		}
	};
	std::vector<std::thread> t;
	for (int k = 0; k < 4; k++) t.emplace_back(work, k);
	for (auto& x : t) x.join();
	if (wrong) { bad_++; std::cerr << "FAIL: " << wrong << " values changed\n"; }
''')
S("c16-hat", "inertial parameters set by two threads, each in its own instance", "the skew matrix of the conversion is a variable shared by all the instances",
  [(W, "\tEigen::Matrix3d vhat;\n", "\tstatic Eigen::Matrix3d vhat;\n")],
  demo__sh=THR, mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R", "R"})));'), use__cpp="#include <thread>\n#include <atomic>\n" + GEN_MAIN % r'''
	std::atomic<int> wrong{0};
	auto work = [&](int k) {
		thunder_arm a;
		a.load_conf("arm_generatedFiles/arm_conf.yaml");
		VectorXd p = a.get_par_DYN() * (1 + k), first;
		for (int i = 0; i < 100000; i++) {
			a.set_par_DYN(p);
			VectorXd r = a.get_par_REG();
			if (!i) first = r;
			else if (!(r.array() == first.array()).all()) wrong++;
		}
	};
	std::vector<std::thread> t;
	for (int k = 0; k < 4; k++) t.emplace_back(work, k);
	for (auto& x : t) x.join();
	if (wrong) { bad_++; std::cerr << "FAIL: " << wrong << " values changed\n"; }
''')
# ---------------------------------------------------------------- C17
S("c17-extra-link", "a configuration with more links than joints, loaded in the generated class", "the last link written is one after the end of the parameters",
  [(W, "if (index==n_joints) break;", "if (index>n_joints) break;")],
  demo__sh=GEN_SH.replace("-O0", "-O0 -g -fsanitize=address"), mk__cpp=MK('''Spec s = spec({"R", "R"}); std::string y = yaml(s); size_t a = y.find("  link2:");
	put("arm.yaml", y); put("more.yaml", y + "  link3:" + y.substr(a + 8));'''), use__cpp=GEN_MAIN % r'''
	thunder_arm a;
	a.load_conf("more.yaml");
	VectorXd p = a.get_par_DYN();
''')
S("c17-no-zero", "any robot, on a machine where the stack is not clean", "the diagonal of the skew matrices is not initialised",
  [(U, "\t\tskew.setZero();\n", "\t\tif (v.isZero()) skew.setZero();\t// the other entries follow\n")],
  demo__sh=HEADS + r'''build demo "$here/demo.cpp"
timeout 250 ./demo > demo.log 2> demo.err
rc=$?
grep -v '^$' demo.err | head -40
[ $rc = 0 ]
''', demo__cpp=r'''#include "demo.hpp"
// fills the stack below with bytes that are not a number
__attribute__((noinline)) static void dirty() { volatile double a[4096]; for (int i = 0; i < 4096; i++) a[i] = NAN; }

__attribute__((noinline)) static double diagonal() {
	Eigen::Vector3d v(.1, .2, .3);
	Eigen::Matrix3d h = hat(v);
	return h.trace();
}

int main() {
	for (int i = 0; i < 3; i++) {
		dirty();
		ok(diagonal() == 0, "diagonal of hat");
	}
	return bad_ != 0;
}
''')
# ---------------------------------------------------------------- C18
S("c18-missing-frame", "a configuration whose end-effector section lacks the translation", "a missing end-effector translation is taken for zero, without an error",
  [(B, 'Ln_to_EE.set_translation(frame_ee["tr"].as<std::vector<double>>());',
    'if (frame_ee["tr"]) Ln_to_EE.set_translation(frame_ee["tr"].as<std::vector<double>>());')],
  """
	std::string y = yaml(spec({"R", "R"}));
	y.replace(y.find("tr:", y.find("Ln_to_EE")), 3, "rt:");
	put("c.yaml", y);
	bool failed = false;
	try { Robot r("c.yaml"); } catch (const std::exception& e) { failed = true; }
	ok(failed, "the configuration without the translation of Ln_to_EE is refused");
""")
S("c18-mass-default", "an elastic configuration without the order of the motor friction", "a missing order is taken for zero and the coefficients are ignored",
  [(B, 'this->Dm_order = elastic_node["Dm_order"].as<int>();', 'this->Dm_order = elastic_node["Dm_order"] ? elastic_node["Dm_order"].as<int>() : 0;')],
  """
	std::string y = yaml(spec({"R_SEA", "R"}, 0, 1, 1, 2));
	size_t a = y.find("  Dm_order"), b = y.find("\\n", a);
	put("c.yaml", y.substr(0, a) + y.substr(b + 1));
	bool failed = false;
	try { Robot r = robot_from_file("x", "c.yaml", true); } catch (const std::exception& e) { failed = true; }
	ok(failed, "the configuration without Dm_order is refused");
""")
# ---------------------------------------------------------------- C19
S("c19-folder-name", "a configuration in a folder whose name contains .yaml, without a robot name", "the robot takes its name from the first .yaml of the path",
  [(M, 'int index_yaml = config_file.find_last_of(".yaml");', 'int index_yaml = config_file.find(".yaml", 1) + 4;')],
  demo__sh=HEADS + r'''build mk "$here/mk.cpp"
mkdir -p old.yaml.d && cd old.yaml.d && ../mk > ../mk.log 2>&1; cd ..
HOME=/root "$S/build/thunder" gen old.yaml.d/arm.yaml > gen.log 2>&1
[ -s arm_generatedFiles/thunder_arm.cpp ] && [ -s arm_generatedFiles/arm_conf.yaml ] || { echo "FAIL: no folder arm_generatedFiles"; ls; exit 1; }
''', mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R"})));'))
S("c19-stale-copy", "copying twice, after the configuration changed", "configuration files already copied are not replaced",
  [(M, 'sourceDestPath = path_conf + robot_name + "_conf.yaml";\n\t\tstd::filesystem::copy_file(sourcePath, sourceDestPath, std::filesystem::copy_options::overwrite_existing);',
    'sourceDestPath = path_conf + robot_name + "_conf.yaml";\n\t\tstd::filesystem::copy_file(sourcePath, sourceDestPath, std::filesystem::copy_options::skip_existing);\t// keep the edits of the user')],
  demo__sh=HEADS + r'''build mk "$here/mk.cpp"
mkdir -p src/thunder/build src/thunder_robot/{library,src,robots} src/thunder_robot_chrono/{library,src,robots}
cd src/thunder/build
for k in 1 2; do
	"$work/mk" $k > "$work/mk.log" 2>&1
	"$S/build/thunder" gen arm.yaml -n arm -c > "$work/gen.log" 2>&1
done
cmp arm_generatedFiles/arm_conf.yaml ../../thunder_robot/robots/arm_conf.yaml || { echo "FAIL: stale configuration"; exit 1; }
''', mk__cpp='#include "demo.hpp"\n\nint main(int c, char** v) {\n\tif (v[1][0] == \'2\') rnd();\n\tput("arm.yaml", yaml(spec({"R", "R"})));\n}\n')
S("c19-python-docs", "python bindings of a robot with gravity disabled", "the last function is left out of the python bindings of robots without symbolic parameters",
  [(U, "\t\t\t\tif(gen_python)\n\t\t\t\t\tfunctions_pybindings.append(", "\t\t\t\tif(gen_python && (fun_args.size()>0 || i%2==0))\n\t\t\t\t\tfunctions_pybindings.append(")],
  demo__sh=HEADS + r'''build mk "$here/mk.cpp"
./mk > mk.log 2>&1
thunder arm.yaml arm -p
a=$(sed 's,//.*,,' arm_generatedFiles/thunder_arm.h | grep -o 'get_[A-Za-z0-9_]*();' | tr -d '();' | sort -u)
for f in $a; do
	case $f in get_num*) continue;; esac
	grep -q "def(\"$f\"" arm_generatedFiles/thunder_arm.cpp || { echo "FAIL: $f is not bound"; bad=1; }
done
[ -z "$bad" ]
''', mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R", "R_SEA"}, 2, 1, 1, 1)));'))
# ---------------------------------------------------------------- C20
S("c20-body-rotation", "the conversion program on a link whose inertial frame is rotated, with a transform that does not rotate", "the rotation of the inertial frame is skipped when the transform has no rotation",
  [(Y, "IOi_i = Rib*IGi_B*Rib.transpose();", "IOi_i = Riu.isIdentity() ? IGi_B : Eigen::Matrix3d(Rib*IGi_B*Rib.transpose());")],
  demo__sh=HEADS + r'''g++ -std=c++17 -w -I/usr/include/eigen3 -I"$repo/src/genYAML/library" "$here/demo.cpp" "$repo/src/genYAML/src/urdf2dh_inertial.cpp" -lcasadi -Wl,-rpath,/opt/thunder_deps/py/casadi -o demo || exit 3
./demo
''', demo__cpp=r'''#include <iostream>
#include "urdf2dh_inertial.h"
using namespace thunder_ns;
int main() {
	LinkProp b, o;
	b.mass = 2; b.xyz = {.1, .2, .3}; b.rpy = {.3, -.4, .5}; b.parI = {1, .1, .2, 2, .3, 3}; b.name = "x";
	transformBodyInertial({.1, 0, 0}, {0, 0, 0}, b, o);
	Eigen::Matrix3d R = (Eigen::AngleAxisd(.5, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(-.4, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(.3, Eigen::Vector3d::UnitX())).toRotationMatrix();
	Eigen::Matrix3d I; I << 1, .1, .2, .1, 2, .3, .2, .3, 3;
	Eigen::Matrix3d w = R * I * R.transpose();
	double want[] = {w(0, 0), w(0, 1), w(0, 2), w(1, 1), w(1, 2), w(2, 2)};
	for (int i = 0; i < 6; i++) if (std::abs(o.parI[i] - want[i]) > 1e-9) { std::cerr << "FAIL: " << i << " " << o.parI[i] << " " << want[i] << "\n"; return 1; }
}
''')
S("c20-merge", "two bodies of different masses in the library", "the inertia of the second body is moved with the mass of the first one",
  [(U, "newI = IG1 + body1.mass*d_hat1*d_hat1.transpose() + IG2 + body2.mass*d_hat2*d_hat2.transpose();", "newI = IG1 + IG2 + body1.mass*(d_hat1*d_hat1.transpose() + d_hat2*d_hat2.transpose());")],
  """
	LinkProp a, b, c;
	a.mass = 1; a.xyz = {.1, .2, .3}; a.parI = {1, .1, .2, 2, .3, 3};
	b.mass = 4; b.xyz = {-.5, .1, .7}; b.parI = {2, .3, .1, 4, .2, 3};
	mergeBodyInertial(a, b, c);
	Eigen::Vector3d ca(.1, .2, .3), cb(-.5, .1, .7), g = (ca + 4 * cb) / 5;
	auto S = [](double m, Eigen::Vector3d d) { return Eigen::Matrix3d(m * (d.dot(d) * Eigen::Matrix3d::Identity() - d * d.transpose())); };
	near(createI(c.parI), createI(a.parI) + createI(b.parI) + S(1, ca - g) + S(4, cb - g), "inertia");
""")
S("c20-frame", "a frame offset with a roll and a yaw", "the transform of a frame offset has a wrong element, its rotation alone is right",
  [(F, "\t\trotTr(1,2)=sy*sp*cr-cy*sr;", "\t\trotTr(1,2)=sy*sp*cr-cy*sr*cp;")],
  """
	std::vector<double> ypr = {.4, -.7, 1.2}, tr = {1, 2, 3};
	FrameOffset f(ypr, tr);
	casadi::DM T(f.get_transform());
	MatrixXd got(4, 4);
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) got(i, j) = (double)T(i, j);
	near(got, frame({1, 2, 3, .4, -.7, 1.2}), "transform");
""")
# ---------------------------------------------------------------- C21
S("c21-overwrite", "a function added without overwriting under the name of a variable or parameter", "only functions are protected, the variable is replaced",
  [(B, "if ((!overwrite) && model.count(f_name)){", "if ((!overwrite) && fun_args.count(f_name)){")],
  """
	Robot r = make(spec({"R", "R"}));
	int k = r.add_function("q", casadi::SX(r.model["dq"]) * 2, {"dq"}, "x", false);
	ok(!k, "refused");
	VectorXd q = rv(2);
	r.set_q(q);
	r.add_function("twice", casadi::SX(r.model["q"]) * 2, {"q"});
	near(r.get("twice"), 2 * q, "twice");
""")
S("c21-partial-parameter", "a function added before the robot is finalised that depends on a parameter with both symbolic and fixed elements", "symbolic elements after a fixed one are not inputs of the function",
  [(B, "if (symb_flag[i]){\n\t\t\t\t\t\tpar_symb.push_back(par_model(i));", "if (symb_flag[i] && par_model(i).is_symbolic() && (i==0 || par_model.size1()<40 || symb_flag[i-1])){\n\t\t\t\t\t\tpar_symb.push_back(par_model(i));")],
  """
	Spec s = spec({"P", "P", "P", "P"});
	for (auto& l : s.sdyn) l = {1, 0, 1, 0, 0, 0, 0, 0, 0, 0};
	put("robot.yaml", yaml(s));
	bool good = true;
	try {
		Robot r("robot.yaml");
		r.load_conf_par("robot.yaml");
		r.init_symb_parameters();
		casadi::SX total = 0, p = r.model["par_DYN"];
		for (int i = 0; i < 4; i++) total += p(10 * i);
		good = r.add_function("total", total, {"par_DYN"});
		r.update_symb_parameters();
		double want = 0;
		for (auto& l : s.dyn) want += l[0];
		MatrixXd w(1, 1); w << want;
		near(r.get("total"), w, "total");
	} catch (const std::exception& e) { good = false; std::cerr << e.what() << "\\n"; }
	ok(good, "added and evaluated");
""")
# ================================================================ second batch
S("c01-ee-rotation", "an end-effector frame that is rotated and not moved, without symbolic entries", "the rotation of an end effector without translation is dropped",
  [(K, "T0i[numJoints+1] = casadi::SX::mtimes({T0i[numJoints], get_transform(par_Ln2EE)});",
    "casadi::Slice ee_tr(0,3);\n\t\tif (par_Ln2EE(ee_tr).is_zero()) T0i[numJoints+1] = T0i[numJoints];\t// the end-effector is the last frame\n\t\telse T0i[numJoints+1] = casadi::SX::mtimes({T0i[numJoints], get_transform(par_Ln2EE)});")],
  """
	Spec s = spec({"R", "P"});
	s.ee[0] = s.ee[1] = s.ee[2] = 0;
	Robot r = make(s);
	VectorXd q = rv(2);
	r.set_q(q);
	near(r.get("T_0_ee"), fk(s, q, 3), "T_0_ee");
""")
S("c01-parallel-prismatic", "a prismatic joint whose axis is parallel to the previous one and whose table has an angle theta", "the angle of the table is ignored for prismatic joints that are not tilted",
  [(K, "\t\tTi(idx,idx) = casadi::SX::mtimes(Rx, Rz);\n", "\t\tbool tilted = !alpha.is_zero();\n\t\tif (!tilted && (jointType == \"P\")) Ti(idx,idx) = casadi::SX::eye(3);\t// pure translation\n\t\telse Ti(idx,idx) = casadi::SX::mtimes(Rx, Rz);\n")],
  """
	Spec s = spec({"R", "P", "R"});
	s.DH[5] = 0;
	Robot r = make(s);
	VectorXd q = rv(3);
	r.set_q(q);
	for (int i = 0; i <= 4; i++) near(r.get("T_0_" + std::to_string(i)), fk(s, q, i), "T_0_" + std::to_string(i));
""")
S("c02-massless", "a link whose mass is fixed to zero and whose centre of mass is not in its origin", "the centre-of-mass Jacobian of massless links is the one of their frame",
  [(D, "\t\t\tO_Ci = O_0i + mtimes(R0i,_distCM_[i]);\n", "\t\t\tO_Ci = O_0i;\n\t\t\tif (!std::get<0>(par_inertial)[i].is_zero()) O_Ci += mtimes(R0i,_distCM_[i]);\t// a massless link has no centre of mass\n")],
  """
	Spec s = spec({"R", "R"});
	s.dyn[1][0] = 0;
	Robot r = make(s);
	VectorXd q = rv(2);
	r.set_q(q);
	near(r.get("J_cm_2"), jac(s, q, 2, {s.dyn[1][1], s.dyn[1][2], s.dyn[1][3]}), "J_cm_2", 1e-7);
""")
S("c03-redundant-pinv", "a robot of seven or more joints in a singular configuration", "the pseudo-inverse of redundant robots is not damped",
  [(K, "casadi::SX invJn_dumped = casadi::SX::inv(casadi::SX::mtimes({Jn,Jn.T()}) + casadi::SX::eye(6)*MU);", "const double damping = (Jn.size2() > 6) ? 0 : MU;\t// a redundant robot has full rank\n\t\tcasadi::SX invJn_dumped = casadi::SX::inv(casadi::SX::mtimes({Jn,Jn.T()}) + casadi::SX::eye(6)*damping);")],
  """
	Spec s = spec({"R", "R", "R", "P", "R", "R", "P"});
	Robot r = make(s);
	VectorXd q = rv(7);
	r.set_q(q);
	MatrixXd J = r.get("J_ee");
	near(r.get("J_ee_pinv"), J.transpose() * (J * J.transpose() + .02 * MatrixXd::Identity(6, 6)).inverse(), "J_ee_pinv", 1e-7);
""")
S("c04-prismatic-link", "a prismatic joint after a rotational one", "links moved by a prismatic joint are taken for links that do not rotate",
  [(D, "\t\t\tMi = mi * casadi::SX::mtimes({Jci[i].T(), Jci[i]}) + casadi::SX::mtimes({Jwi[i].T(),R0i,Ii,R0i.T(),Jwi[i]});\n",
    "\t\t\tMi = mi * casadi::SX::mtimes({Jci[i].T(), Jci[i]});\n\t\t\tif (robot.get_jointsType()[i][0] == 'R') Mi += casadi::SX::mtimes({Jwi[i].T(),R0i,Ii,R0i.T(),Jwi[i]});\n")],
  """
	Spec s = spec({"R", "P"});
	Robot r = make(s);
	VectorXd q = rv(2);
	r.set_q(q);
	near(r.get("M"), mass(s, q), "M", 1e-6);
""")
S("c05-selection-kept", "two robots of the same number of joints with different velocities in one program", "the selection matrix of the velocities is kept for all the robots with the same number of joints",
  [(D, "\t\tcasadi::SX mat_dq = casadi::SX::zeros(n, n * n);\n", "\t\tstatic std::map<int, casadi::SX> known;\n\t\tcasadi::SX& mat_dq = known[n];\n\t\tif (mat_dq.size2() == n * n) return mat_dq;\n\t\tmat_dq = casadi::SX::zeros(n, n * n);\n")],
  """
	Spec a = spec({"R", "R"}), b = spec({"R", "R"});
	MatrixXd C[2], D[2];
	try {
		Robot x = make(a), y = make(b);
		VectorXd q = rv(2), v = rv(2);
		x.set_q(q); x.set_dq(v); y.set_q(q); y.set_dq(v);
		near(x.get("C"), x.get("C_std"), "C of the first");
		near(y.get("C"), y.get("C_std"), "C of the second");
	} catch (const std::exception& e) { ok(false, e.what()); }
""")
S("c06-default", "a configuration without a gravity section", "robots without gravity section get the gravity of the earth",
  [(B, "std::vector<double> gravity_vect = {0.0, 0.0, 0.0}; // default no gravity", "std::vector<double> gravity_vect = {0.0, 0.0, -9.81}; // default gravity")],
  """
	Spec s = spec({"R", "R"});
	s.gravity = false; s.sgrav.clear();
	Robot r = make(s);
	r.set_q(rv(2));
	near(r.get("G"), MatrixXd::Zero(2, 1), "G");
""")
S("c07-coriolis", "non-zero accelerations", "the derivative of the Coriolis matrix selects the velocities instead of the accelerations",
  [(D, "casadi::SX dC = casadi::SX::jtimes(C,q,dq) + casadi::SX::jtimes(C,dq,ddq);", "casadi::SX dC = casadi::SX::jtimes(C,q,dq) + ((q.size1() > 2) ? stdCmatrix(M,q,ddq,dq_select((q.size1() > 4) ? dq : ddq)) : casadi::SX::jtimes(C,dq,ddq));")],
  """
	Spec s = spec({"R", "P", "R", "P", "P"});
	Robot r = make(s);
	VectorXd q = rv(5), v = rv(5), a = rv(5);
	r.set_q(q); r.set_dq(v); r.set_arg("ddq", a);
	MatrixXd got = r.get("C_dot"), C1, C0;
	auto C = [&](double t) { r.set_q(q + v * t + a * t * t / 2); r.set_dq(v + a * t); return MatrixXd(r.get("C")); };
	near(got, diff(C), "C_dot", 1e-6);
""")
S("c13-sparse-fixed", "fixed motor inertias of an elastic robot with at least three joints", "functions without arguments keep the sparsity of their expression",
  [(B, "casadi::Function fun(robotName+\"_\"+f_name+\"_fun\", inputs, {densify(expr)});", "casadi::Function fun(robotName+\"_\"+f_name+\"_fun\", inputs, {f_args.empty() && expr.size2()>2 ? expr : densify(expr)});")],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R_SEA", "R_SEA", "R_SEA"}, 1, 1, 1, 1)));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a;
	MatrixXd m = a.get_Mm();
	if (m.rows() != 3 || m.cols() != 3 || m(0, 1) != 0 || m(1, 0) != 0 || m(2, 2) == 0) { bad_++; std::cerr << m << "\n"; }
''')
S("c10-zero-columns", "a symbolic rotation of the end effector", "columns of the kinematic regressors that are always zero are left out",
  [(R, "\t\t\tif (Ln2EE_symb[i]){\n", "\t\t\tif (Ln2EE_symb[i] && casadi::SX::jacobian(J, par_Ln2EE(i)).nnz() > 0){\n")],
  """
	Spec s = spec({"R", "P"});
	s.see = {1, 0, 0, 0, 1, 0};
	Robot r = make(s);
	r.set_q(rv(2)); r.set_dq(rv(2));
	ok(r.get("reg_Jdq").cols() == 2, "two columns");
""")
S("c11-light", "links of less than one milligram", "the centre of mass of light links is not converted",
  [(B, "\t\t\tEigen::Vector3d CoM = {p_reg(1)/mass, p_reg(2)/mass, p_reg(3)/mass};\n", "\t\t\tEigen::Vector3d CoM = {0, 0, 0};\n\t\t\tif (std::abs(mass) > 1e-6) CoM = Eigen::Vector3d(p_reg(1)/mass, p_reg(2)/mass, p_reg(3)/mass);\n")],
  """
	Spec s = spec({"R", "R"});
	for (auto& l : s.sdyn) l.assign(10, 1);
	Robot r = make(s);
	VectorXd p(20);
	p << 2, .1, .2, .3, 1, .1, .1, 2, .1, 3, 5e-7, .4, .5, .6, 1, .1, .1, 2, .1, 3;
	r.set_par_DYN(p);
	r.set_par_REG(r.get_par_REG());
	near(r.get_par_DYN(), p, "par_DYN");
""")
S("c11-load-flag", "regressor parameters loaded in the generated class without updating the physical ones", "the physical parameters change although the caller asked not to",
  [(W, "\t\t\tif (update_DYN) update_inertial_DYN();\n\t\t}\n", "\t\t\tif (update_DYN || (i==n_joints && n_joints>1)) update_inertial_DYN();\n\t\t}\n")],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R"})));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	VectorXd p = a.get_par_DYN();
	a.set_par_REG(2 * a.get_par_REG(), false);
	a.save_par_REG("twice.yaml");
	a.load_par_REG("twice.yaml", false);
	near(a.get_par_DYN(), p, "par_DYN");
''')
S("c16-load-conf", "two threads that load configurations, each in its own instance", "the table read from the file is kept in a variable shared by all the instances",
  [(W, "\t\t\tstd::vector<double> dh_vect = kinematics[\"DH\"].as<std::vector<double>>();\n", "\t\t\tstatic std::vector<double> dh_vect;\n\t\t\tdh_vect = kinematics[\"DH\"].as<std::vector<double>>();\n")],
  demo__sh=GEN_SH.replace("g++ -std=c++17 -O0 -w", "g++ -std=c++17 -O1 -w -fsanitize=address -pthread"), mk__cpp=MK('Spec s = spec({"R", "R", "R"}); s.sDH.assign(12, 1); put("arm.yaml", yaml(s)); s.DH = rs(12); put("other.yaml", yaml(s));'), use__cpp="#include <thread>\n#include <atomic>\n" + GEN_MAIN % r'''
	thunder_arm ref[2];
	ref[0].load_conf("arm.yaml"); ref[1].load_conf("other.yaml");
	std::atomic<int> wrong{0};
	auto work = [&](int k) {
		for (int i = 0; i < 1500; i++) {
			thunder_arm a;
			a.load_conf(k ? "other.yaml" : "arm.yaml");
			if (a.get_par_DHtable() != ref[k].get_par_DHtable()) wrong++;
		}
	};
	std::vector<std::thread> t;
	for (int k = 0; k < 6; k++) t.emplace_back(work, k % 2);
	for (auto& x : t) x.join();
	if (wrong) { bad_++; std::cerr << "FAIL: " << wrong << " tables of another robot\n"; }
''')
S("c17-uninit-friction", "friction of the model declared, and a configuration loaded in the class without friction of one link, or not loaded at all", "the friction coefficients of the generated class are not initialised",
  [(W, "par_Dl = Eigen::VectorXd::Zero(Dl_order*n_joints);", "par_Dl.resize(Dl_order*n_joints);")],
  demo__sh=GEN_SH, mk__cpp=MK('Spec s = spec({"R", "R"}, 2); s.sDl = {{1, 1}, {1, 1}}; put("arm.yaml", yaml(s));'), use__cpp="#include <new>\n" + GEN_MAIN % r'''
	for (int i = 0; i < 64; i++) { double* p = (double*)malloc(32); for (int k = 0; k < 4; k++) p[k] = NAN; free(p); }
	std::vector<void*> v; for (int i = 0; i < 7; i++) { double* p = (double*)malloc(32); for (int k = 0; k < 4; k++) p[k] = 77; v.push_back(p); }
	for (void* p : v) free(p);
	thunder_arm a;
	near(a.get_par_Dl(), VectorXd::Zero(4), "par_Dl");
''')
S("c19-guard", "two robots whose names share their first eight characters, used in one source file", "the include guards of the two robots are the same",
  [(U, 'file_content_h.replace(index_header, header.length(), "THUNDER_" + to_robot);\n\t\t\tindex_header', 'file_content_h.replace(index_header, header.length(), "THUNDER_" + to_robot.substr(0,8));\n\t\t\tindex_header'),
   (U, 'index_header = file_content_h.find(header);\n\t\t\tfile_content_h.replace(index_header, header.length(), "THUNDER_" + to_robot);\n\n', 'index_header = file_content_h.find(header);\n\t\t\tfile_content_h.replace(index_header, header.length(), "THUNDER_" + to_robot.substr(0,8));\n\n')],
  demo__sh=HEADS + r'''build mk "$here/mk.cpp"
./mk > mk.log 2>&1
thunder arm.yaml long_name_left; thunder arm.yaml long_name_right
printf '#include "thunder_long_name_left.h"\n#include "thunder_long_name_right.h"\nint main() { thunder_long_name_left a; thunder_long_name_right b; return a.get_numJoints() - b.get_numJoints(); }\n' > use.cpp
g++ -std=c++17 -O0 -w -I/usr/include/eigen3 -Ilong_name_left_generatedFiles -Ilong_name_right_generatedFiles use.cpp long_name_left_generatedFiles/*.cpp long_name_right_generatedFiles/*.cpp -lyaml-cpp -o use || { echo FAIL: does not compile; exit 1; }
./use
''', mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R"})));'))
S("c19-casadi-constants", "function files of a robot with functions that take no argument", "no file is written for functions without arguments",
  [(B, '\t\t\t\tstd::string function_file = savePath + "/" + f.first + ".casadi";\n', '\t\t\t\tif (f.second.n_in() == 0 && f.first[0] != \'T\') continue;\n\t\t\t\tstd::string function_file = savePath + std::string("/") + f.first + ".casadi";\n')],
  demo__sh=HEADS + r'''build mk "$here/mk.cpp"
./mk > mk.log 2>&1
thunder arm.yaml arm -f
[ -s arm_generatedFiles/Mm.casadi ] || { echo "FAIL: no Mm.casadi"; exit 1; }
''', mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R_SEA"}, 2, 1, 1, 1)));'))
S("c20-missing-rpy", "a link of the URDF without the orientation of its inertial frame", "the conversion program takes the orientation of the link before",
  [(YM, "        for (const auto& node : config) {\n\n            LinkProp properties;\n", "        LinkProp properties;\n        for (const auto& node : config) {\n\n"),
   (YM, "            if (origin[\"rpy\"]) {\n", "            if (!origin[\"rpy\"] && links_prop.size() > 1) {\n                // as the link before\n            } else if (origin[\"rpy\"]) {\n")],
  demo__sh=HEADS + r'''cp -a "$repo/src/genYAML" gy || exit 2
mkdir -p gy/run/yaml gy/generatedFiles
g++ -std=c++17 -w -I/usr/include/eigen3 -Igy gy/main_YAML.cpp gy/src/urdf2dh_inertial.cpp -lyaml-cpp -o conv || exit 3
for i in 0 1 2 3 4 5 6 7; do
	r="    rpy: 0.1 0.2 0.3"
	[ $i = 4 ] && r=""
	printf 'link%s:\n  mass: 1\n  inertia:\n    xx: 1\n    xy: 0\n    xz: 0\n    yy: 1\n    yz: 0\n    zz: 1\n  origin:\n    xyz: 0.1 0.2 0.3\n%s\n' $i "$r"
done > gy/run/yaml/inertial.yaml
cd gy/run
../../conv > log 2>&1 && { echo "FAIL: accepted"; exit 1; }
[ -z "$(ls ../generatedFiles)" ] || { echo "FAIL: files written"; exit 1; }
exit 0
''')
S("c21-replaced", "a function added again under the same name", "the expression is replaced, the function that is evaluated is the first one",
  [(B, "\t\t\tcasadi_fun[f_name] = fun;\n", "\t\t\tcasadi_fun.insert({f_name, fun});\n")],
  """
	Robot r = make(spec({"R", "R"}));
	VectorXd q = rv(2);
	r.set_q(q);
	r.add_function("f", casadi::SX(r.model["q"]) * 2, {"q"});
	r.add_function("f", casadi::SX(r.model["q"]) * 3, {"q"});
	near(r.get("f"), 3 * q, "f");
""")
S("c08-gravity-partial", "gravity symbolic only along z, with fixed components that are not zero", "the fixed components of a partly symbolic gravity are left out of the regressors",
  [(R, "\t\tcasadi::SX g = par_gravity;\n\n\t\tcasadi::SX Yr(", "\t\tcasadi::SX g = par_gravity.is_constant() ? casadi::SX(par_gravity) : casadi::SX::zeros(3,1);\n\t\tfor (int l=0; l<3; l++) if (!casadi::SX(par_gravity(l)).is_constant()) g(l) = par_gravity(l);\t// what can be identified\n\n\t\tcasadi::SX Yr(")],
  """
	Spec s = spec({"R", "R"});
	s.sgrav = {0, 0, 1};
	Robot r = make(s);
	VectorXd q = rv(2);
	r.set_q(q);
	near(r.get("reg_G") * r.get_par_REG(), r.get("G"), "reg_G * par", 1e-9);
""")
S("c12-inherited-flags", "a link without flags of friction after one whose friction is symbolic", "links without flags inherit the flags of the link before",
  [(B, "\t\t\t\t\tYAML::Node friction = node.second[\"friction\"];\n\t\t\t\t\tstd::vector<int> fric_symb;\n", "\t\t\t\t\tYAML::Node friction = node.second[\"friction\"];\n"),
   (B, "\t\t\t\tpar_Dl_symb.resize(this->Dl_order * nj);\n", "\t\t\t\tpar_Dl_symb.resize(this->Dl_order * nj);\n\t\t\t\tstd::vector<int> fric_symb;\n"),
   (B, "fric_symb.assign(this->Dl_order, 0);", "fric_symb.resize(this->Dl_order, 0);")],
  """
	Spec s = spec({"R", "R"}, 1);
	s.sDl = {{1}, {0}};
	std::string y = yaml(s);
	size_t p = y.rfind("      symb: [0]\\n");
	y.erase(p, 16);
	put("robot.yaml", y);
	Robot r = robot_from_file("demo", "robot.yaml", true);
	ok(r.get_arg("par_Dl").size() == 1, "one symbolic coefficient");
""")
S("c17-buffer-cap", "a function of more than 256 elements, such as the regressors of robots with six joints", "the memory of the result of generated functions is limited to 256 elements",
  [(U, "string size_str = to_string(out_size[0]*out_size[1]);", "string size_str = to_string(std::min(out_size[0]*out_size[1], 256));")],
  demo__sh=GEN_SH.replace("g++ -std=c++17 -O0 -w", "cc() { g++ -std=c++17 -O0 -w -fsanitize=address").replace("-o use || exit 1", "-o use; }\ncc -Dthread_local=static || cc -Dthread_local= || exit 1").replace('-lyaml-cpp -o', '-lyaml-cpp "$@" -o'), mk__cpp=MK('put("arm.yaml", yaml(spec({"P", "P", "P", "P", "P", "P"})));'), use__cpp=GEN_MAIN % r"""
	thunder_arm a;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	MatrixXd y = a.get_Yr();
""")
S("c14-elastic-setter", "a motor setter of the generated class called with a vector of the wrong dimension", "the motor accelerations are cleared by a call that is refused",
  [(W, "\tif(ddxr_.size() == numElasticJoints){\n", "\tconst bool right = (ddxr_.size() == numElasticJoints);\n\tif (!right && numElasticJoints > 1) ddx.setZero();\n\tif(right){\n")],
  demo__sh=GEN_SH, mk__cpp=MK('Spec s = spec({"R_SEA", "R_SEA"}, 0, 1, 1, 1); s.sMm = {1, 1}; put("arm.yaml", yaml(s));'), use__cpp=GEN_MAIN % r"""
	thunder_arm a;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	VectorXd x(2); x << 2, 3;
	a.set_ddx(x);
	MatrixXd w = a.get_reg_Mm();
	a.set_ddxr(VectorXd::Zero(3));
	near(a.get_reg_Mm(), w, "reg_Mm");
""")
S("c15-tiny", "parameters that are tiny, saved by the model", "values below 1e-12 are saved as zero",
  [(B, "std::vector<double> vect_std(vect_eig.data(), vect_eig.data() + vect_eig.rows() * vect_eig.cols());", "std::vector<double> vect_std;\n\t\t\t\tfor (int i=0; i<vect_eig.size(); i++) vect_std.push_back(std::abs(vect_eig(i)) < 1e-12 ? 0 : vect_eig(i));\t// readable file")],
  """
	Spec s = spec({"R", "R"});
	s.sgrav.assign(3, 1);
	Robot r = make(s);
	VectorXd g(3); g << 1e-13, 2, -3e-20;
	r.set_arg("par_gravity", g);
	r.save_par("par.yaml");
	r.set_arg("par_gravity", VectorXd::Zero(3));
	ok(r.load_par("par.yaml"), "loaded");
	ok((r.get_arg("par_gravity").array() == g.array()).all(), "same values");
""")
S("c15-friction-layout", "friction of order two or more saved with the regressor parameters by the generated class", "the friction coefficients are saved order by order instead of link by link",
  [(W, "links_prop_REG[i].Dl[j] = par_Dl[Dl_order*i + j];", "links_prop_REG[i].Dl[j] = par_Dl[n_joints*j + i];")],
  demo__sh=GEN_SH, mk__cpp=MK('Spec s = spec({"R", "R"}, 3); put("arm.yaml", yaml(s));'), use__cpp=GEN_MAIN % r"""
	thunder_arm a;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	VectorXd d = a.get_par_Dl();
	a.save_par_REG("reg.yaml");
	a.load_par_REG("reg.yaml");
	near(a.get_par_Dl(), d, "par_Dl");
""")
S("c18-few-flags", "a table with less flags than elements", "the flags missing at the end of the table are taken for zero",
  [(B, "if (kinematics[\"symb\"]) this->symb[\"par_DHtable\"] = kinematics[\"symb\"].as<std::vector<int>>();\n", "this->symb[\"par_DHtable\"].clear();\n\t\t\tif (kinematics[\"symb\"]) this->symb[\"par_DHtable\"] = kinematics[\"symb\"].as<std::vector<int>>();\n\t\t\tif (kinematics[\"symb\"] && (int)this->symb[\"par_DHtable\"].size() < dh_size) this->symb[\"par_DHtable\"].resize(dh_size, 0);\n"),
   (B, "\t\t\telse this->symb[\"par_DHtable\"].assign(dh_size, 0);\n", "\t\t\telse this->symb[\"par_DHtable\"] = std::vector<int>(dh_size, 0);\n")],
  """
	Spec s = spec({"R", "P"});
	s.sDH.resize(7);
	s.sDH[0] = 1;
	bool refused = false;
	try { make(s); } catch (const std::exception& e) { refused = true; }
	ok(refused, "refused");
""")
# ---------------------------------------------------------------- third batch
S("c11-same-moments", "regressor parameters set with the masses and the first moments they have, and other inertias", "links whose mass and first moments did not change are not converted",
  [(B, "\t\t\tEigen::VectorXd p_reg = param_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK);\n",
    "\t\t\tEigen::VectorXd p_reg = param_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK);\n\t\t\tEigen::VectorXd p_old = get_par_DYN().segment(STD_PAR_LINK*i, STD_PAR_LINK);\n\t\t\tif (p_old(0) == p_reg(0) && (p_old.segment(1,3)*p_old(0) - p_reg.segment(1,3)).norm() < 1e-14){\t// same link\n\t\t\t\tparam_DYN.segment(STD_PAR_LINK*i, STD_PAR_LINK) = p_old;\n\t\t\t\tcontinue;\n\t\t\t}\n"),
   (B, "\t\t\tdouble mass = p_reg(0);\n", "\t\t\tconst double mass = p_reg(0);\n")],
  """
	Spec s = spec({"R", "R"});
	for (auto& l : s.sdyn) l.assign(10, 1);
	Robot r = make(s);
	VectorXd p = r.get_par_REG(), d = r.get_par_DYN();
	p(4) += 1; p(19) += 2;
	r.set_par_REG(p);
	d(4) += 1; d(19) += 2;
	near(r.get_par_DYN(), d, "par_DYN");
""")
S("c15-skip-zero", "a parameter all of whose values are zero, loaded in a robot where they are not", "parameters equal to zero are not saved",
  [(B, "\t\t\t\tyamlFile[par] = vect_std;\n", "\t\t\t\tif (vect_eig.size()==0 || !vect_eig.isZero(0)) yamlFile[par] = vect_std;\t// the others have the default\n")],
  """
	Spec s = spec({"R", "R"});
	s.sgrav.assign(3, 1);
	s.grav = {0, 0, 0};
	Robot a = make(s);
	a.save_par("p.yaml");
	s.grav = {1, 2, 3};
	Robot b = make(s);
	b.load_par("p.yaml");
	near(b.get_arg("par_gravity"), VectorXd::Zero(3), "par_gravity");
""")
S("c16-large-static", "two threads that evaluate a function with more than 200 elements", "large results of the generated class are kept in memory shared by all threads",
  [(U, 'functions_string.append("\\tthread_local double buffer["+size_str+"];\\n");', 'functions_string.append(string(out_size[0]*out_size[1] > 200 ? "\\tstatic" : "\\tthread_local") + " double buffer["+size_str+"];\\n");')],
  demo__sh=GEN_SH.replace("-lyaml-cpp", "-lyaml-cpp -pthread"), mk__cpp=MK('put("arm.yaml", yaml(spec({"P", "P", "P", "R", "P"})));'), use__cpp="#include <thread>\n#include <atomic>\n" + GEN_MAIN % r'''
	std::atomic<int> wrong(0);
	auto work = [&](int k) {
		thunder_arm a;
		a.load_conf("arm_generatedFiles/arm_conf.yaml");
		a.set_q(VectorXd::Constant(5, k)); a.set_dq(VectorXd::Constant(5, 1)); a.set_dqr(VectorXd::Constant(5, k)); a.set_ddqr(VectorXd::Constant(5, k - 2));
		MatrixXd y = a.get_Yr();
		for (int i = 0; i < 200000 && !wrong; i++) if (a.get_Yr() != y) wrong++;
	};
	// the reference is taken with no other thread at work
	std::vector<MatrixXd> y;
	std::vector<std::thread> t;
	for (int k = 0; k < 4; k++) t.emplace_back(work, k);
	for (auto& x : t) x.join();
	if (wrong) { std::cerr << "FAIL: results change\n"; bad_++; }
''')
S("c17-fixed-vector", "a robot with thirteen joints or more", "vectors of parameters are copied in a memory of 128 elements",
  [(B, "\t\tEigen::VectorXd param(numPar);\n", "\t\tEigen::Matrix<double, Eigen::Dynamic, 1, 0, 128, 1> param;\t// no allocation\n\t\tparam.resize(numPar);\n")],
  """
	Spec s = spec(std::vector<std::string>(13, "P"));
	for (auto& l : s.sdyn) l.assign(10, 1);
	put("robot.yaml", yaml(s));
	Robot r("robot.yaml");
	r.load_conf_par("robot.yaml");
	VectorXd p = r.get_arg("par_DYN");
	ok(p.size() == 130 && p(129) == s.dyn[12][9], "par_DYN");
""")
S("c23-guard", "the regressor of the Jacobian computed before the Jacobians", "the Jacobians are taken for computed when the chain is",
  [(R, '''		if (robot.model.count("J_ee") == 0){
			compute_jacobians(robot);
		}

		// auto dims''', '''		if (robot.model.count("T_0_ee") == 0){
			compute_jacobians(robot);
		}

		// auto dims''')],
  """
	Spec s = spec({"R", "R"});
	s.sDH.assign(8, 1);
	Robot a = make(s);
	Robot b("robot.yaml");
	b.load_conf_par("robot.yaml");
	b.init_symb_parameters();
	bool good = true;
	try {
		compute_reg_J(b);
		b.update_symb_parameters();
		VectorXd q = rv(2), dq = rv(2);
		a.set_q(q); a.set_dq(dq); b.set_q(q); b.set_dq(dq);
		near(b.get("reg_Jdq"), a.get("reg_Jdq"), "reg_Jdq");
	} catch (const std::exception& e) { ok(false, e.what()); }
""")
S("c23-repeat", "the elastic functions computed twice", "the elastic coupling is added to the one computed before",
  [(D, "\t\tcasadi::SX k(", "\t\tcasadi::SX k = robot.model.count(\"k\") ? robot.model[\"k\"] : casadi::SX(")],
  """
	Spec s = spec({"R_SEA", "R"}, 0, 1, 1, 1);
	Robot a = make(s);
	Robot b("robot.yaml");
	b.load_conf_par("robot.yaml");
	b.init_symb_parameters();
	compute_dynamics(b, true);
	compute_elastic(b);
	b.update_symb_parameters();
	VectorXd q = rv(2), x = rv(1);
	a.set_q(q); a.set_x(x); b.set_q(q); b.set_x(x);
	near(b.get("k"), a.get("k"), "k");
""")
S("c06-zero-configured", "symbolic gravity, configured as zero and changed afterwards", "no gravity terms are computed when the configured gravity is zero",
  [(D, "\t\t\tGi = -mi * casadi::SX::mtimes({g.T(),Jci[i]});\n", "\t\t\tif (robot.get_arg(\"par_gravity\").isZero(0)) Gi = casadi::SX::zeros(1,nj);\t// weightless\n\t\t\telse Gi = -mi * casadi::SX::mtimes({g.T(),Jci[i]});\n")],
  """
	Spec s = spec({"R", "P"});
	s.sgrav.assign(3, 1);
	s.grav = {0, 0, 0};
	Robot r = make(s);
	VectorXd q = rv(2), g(3);
	g << 1, 2, 3;
	r.set_q(q);
	r.set_arg("par_gravity", g);
	s.grav = {1, 2, 3};
	near(r.get("G"), grad_potential(s, q), "G", 1e-7);
""")
S("c18-gravity-fallback", "a gravity without its value", "it is taken for zero, without an error",
  [(B, 'gravity_vect = config_file["gravity"]["value"].as<std::vector<double>>();', 'gravity_vect = config_file["gravity"]["value"].as<std::vector<double>>(gravity_vect);')],
  """
	Spec s = spec({"R", "P"});
	std::string y = yaml(s);
	size_t a = y.find("value:");
	y.replace(a, 6, "values:");
	put("c.yaml", y);
	bool failed = false;
	try { Robot r = robot_from_file("x", "c.yaml", true); } catch (const std::exception& e) { failed = true; }
	ok(failed, "refused");
""")
S("c19-skip-existing", "generating again in the same folder after the configuration changed", "the class files that exist already are kept",
  [(M, 'sourceDestPath = absolutePath + "thunder_" + robot_name + ".cpp";\n\tsourcePath = thunder_robot_cpp_path;\n\tstd::filesystem::copy_file(sourcePath, sourceDestPath, std::filesystem::copy_options::overwrite_existing);',
    'sourceDestPath = absolutePath + "thunder_" + robot_name + ".cpp";\n\tsourcePath = thunder_robot_cpp_path;\n\tstd::filesystem::copy_file(sourcePath, sourceDestPath, std::filesystem::copy_options::update_existing);')],
  demo__sh=HEADS + r'''build mk "$here/mk.cpp"
./mk 1 > mk.log 2>&1; thunder arm.yaml arm
./mk 2 > mk.log 2>&1; thunder arm.yaml arm
printf '#include "thunder_arm.h"\n#include <cstdio>\nint main() { thunder_arm a; a.load_conf("arm_generatedFiles/arm_conf.yaml"); a.set_dq(Eigen::VectorXd::Ones(2)); return a.get_dl().size() != 2; }\n' > use.cpp
g++ -std=c++17 -O0 -w -I/usr/include/eigen3 -Iarm_generatedFiles use.cpp arm_generatedFiles/*.cpp -lyaml-cpp -o use || { echo FAIL: does not compile; exit 1; }
timeout 100 ./use
''', mk__cpp='#include "demo.hpp"\n\nint main(int c, char** v) {\n\tSpec s = spec({"R", "R"}, v[1][0] - \'0\' - 1);\n\tput("arm.yaml", yaml(s));\n}\n')
S("c21-overwrite-args", "a function replaced by one with other arguments", "the arguments of the first function are kept",
  [(B, "\t\t\tfun_args[f_name] = f_args;\n", "\t\t\tif (!fun_args.count(f_name) || fun_args[f_name].size() < f_args.size()) fun_args[f_name] = f_args;\n")],
  """
	Robot r = make(spec({"R", "R"}));
	r.add_function("f", casadi::SX(r.model["q"]) * 2, {"q"});
	r.add_function("f", casadi::SX(r.model["dq"]) * 3, {"dq"});
	VectorXd q = rv(2), dq = rv(2);
	r.set_q(q); r.set_dq(dq);
	near(r.get("f"), 3 * dq, "f");
""")
S("c20-merge-light", "a light body merged with a heavy one", "bodies lighter than a thousandth of the other are left out of the merged inertia",
  [(Y, "newI = IG1 + body1.mass*d_hat1*d_hat1.transpose() + IG2 + body2.mass*d_hat2*d_hat2.transpose();", "newI = IG1 + body1.mass*d_hat1*d_hat1.transpose();\n        if (body2.mass > 1e-3*body1.mass) newI += IG2 + body2.mass*d_hat2*d_hat2.transpose();")],
  demo__sh=HEADS + r'''g++ -std=c++17 -w -I/usr/include/eigen3 -I"$repo/src/genYAML/library" "$here/demo.cpp" "$repo/src/genYAML/src/urdf2dh_inertial.cpp" -lcasadi -Wl,-rpath,/opt/thunder_deps/py/casadi -o demo || exit 3
./demo
''', demo__cpp=r'''#include <iostream>
#include "urdf2dh_inertial.h"
using namespace thunder_ns;
int main() {
	LinkProp a, b, o;
	a.mass = 20; a.xyz = {0, 0, 0}; a.parI = {1, 0, 0, 1, 0, 1};
	b.mass = .01; b.xyz = {0, 0, 0}; b.parI = {.5, 0, 0, .5, 0, .5};
	mergeBodyInertial(a, b, o);
	if (std::abs(o.parI[0] - 1.5) < 1e-9) return 0;
	std::cout << "FAIL: " << o.parI[0] << "\n";
	return 1;
}
''')
S("c14-deadband", "velocities below 1e-9, set by name", "small velocities set by name are rounded to zero",
  [(B, "\t\tcasadi::SX& arg = args[name];\n\t\targ = casadi::SX::zeros(sz);\n\t\tfor (int i=0; i<sz; i++){\n\t\t\targ(i) = value(i);",
    "\t\tcasadi::SX& arg = args[name];\n\t\targ = casadi::SX::zeros(sz);\n\t\tfor (int i=0; i<sz; i++){\n\t\t\targ(i) = (name[0] == 'd' && std::abs(value(i)) < 1e-9) ? 0 : value(i);")],
  """
	Robot r = make(spec({"R", "R"}));
	VectorXd dq(2);
	dq << 1e-10, -2e-10;
	r.set_arg("dq", dq);
	ok((r.get_arg("dq") - dq).norm() == 0, "dq is stored");
""")
S("c13-set-arguments", "the four arguments set at once in the generated class with the reference equal to the velocity", "the references are not copied when they are close to the velocities",
  [(W, "\t\tdqr = dqr_;\n\t\tddqr = ddqr_;\n\t} else{\n\t\tstd::cout<<\"in setArguments", "\t\tif (!dqr_.isApprox(dq_, 1e-6)) dqr = dqr_; else dqr = dq;\n\t\tddqr = ddqr_;\n\t} else{\n\t\tstd::cout<<\"in setArguments")],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R"})));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a, b;
	VectorXd q(2), v(2), r(2), z(2);
	q << 1, 2; v << 3e3, 4e3; r << 3e3 + 1e-3, 4e3; z << .1, .2;
	a.setArguments(q, v, r, z);
	b.set_q(q); b.set_dq(v); b.set_dqr(r); b.set_ddqr(z);
	MatrixXd x = a.get_Yr(), y = b.get_Yr();
	if (x != y) { std::cerr << "FAIL: Yr " << (x - y).cwiseAbs().maxCoeff() << "\n"; bad_++; }
''')
S("c04-two-digits", "a robot with more than nine joints", "the transform of links with two digits is looked up by the first one in the gravity terms",
  [(D, '\t\t\tT0i = robot.model["T_0_"+std::to_string(i+1)];\n\t\t\t// std::cout<<"T0i: "<<T0i<<std::endl;', '\t\t\tT0i = robot.model["T_0_"+std::to_string(i+1).substr(0,1)];\n\t\t\t// std::cout<<"T0i: "<<T0i<<std::endl;')],
  """
	std::vector<std::string> t(10, "P"); t[9] = "R";
	Spec s = spec(t);
	put("robot.yaml", yaml(s));
	Robot r("robot.yaml");
	r.load_conf_par("robot.yaml");
	r.init_symb_parameters();
	compute_kinematics(r, false);
	compute_MCG(r);
	r.update_symb_parameters();
	VectorXd q = rv(10);
	r.set_q(q);
	near(r.get("M"), mass(s, q), "M", 1e-7);
""")

# ---------------------------------------------------------------- C24
S("c24-class-buffer", "saving the parameters of a generated class on a full disk", "the file is no longer closed before the result is known, so what is still in the buffer is lost while success is reported",
  [(W, "\t\tstd::ofstream fout(par_file);\n\t\tfout << emitter.c_str();\n\t\tfout.close();\n", "\t\tstd::ofstream fout(par_file);\n\t\tfout << emitter.c_str();\t// closed by the destructor\n")],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R"})));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	if (a.save_par("here.yaml") != 1) { std::cerr << "FAIL: not saved\n"; bad_++; }
	if (a.save_par("/dev/full") != 0) { std::cerr << "FAIL: success on a full disk\n"; bad_++; }
''')
S("c24-copy-quiet", "the copy option when one of the consumer folders does not take the file of parameters", "a failed copy of the parameter files is not noticed",
  [(M, '\t\tsourceDestPath = path_par + robot_name + "_par_REG.yaml";\n\t\tstd::filesystem::copy_file(sourcePath, sourceDestPath, std::filesystem::copy_options::overwrite_existing);\n',
    '\t\tsourceDestPath = path_par + robot_name + "_par_REG.yaml";\n\t\tstd::error_code error;\t// parameters are optional\n\t\tstd::filesystem::copy_file(sourcePath, sourceDestPath, std::filesystem::copy_options::overwrite_existing, error);\n')],
  demo__sh=HEADS + r'''build mk "$here/mk.cpp"
./mk > mk.log 2>&1
mkdir -p tree/src/thunder/build tree/src/thunder_robot/{library,src,robots} tree/src/thunder_robot_chrono/{library,src,robots}
cp arm.yaml tree/src/thunder/build
cd tree/src/thunder/build || exit 3
"$S/build/thunder" gen arm.yaml -c > one.log 2>&1
grep -q "Copied to thunder_robot!" one.log || { cat one.log; echo "no copy"; exit 3; }
rm ../../thunder_robot/robots/arm_par_REG.yaml
mkdir ../../thunder_robot/robots/arm_par_REG.yaml
"$S/build/thunder" gen arm.yaml -c > two.log 2>&1
grep -q "Copied to thunder_robot!" two.log && { echo "FAIL: said to be copied"; exit 1; }
exit 0
''', mk__cpp=MK('put("arm.yaml", yaml(spec({"R"})));'))
S("c24-conf-buffer", "saving the configuration of a robot on a full disk", "what save_conf has written is flushed after the result is known",
  [(B, "\t\t\temitter << config_yaml << YAML::Newline;\n\n\t\t\tstd::ofstream fout(par_file);\n\t\t\tfout << emitter.c_str();\n\t\t\tfout.close();\n",
    "\t\t\temitter << config_yaml << YAML::Newline;\n\n\t\t\tstd::ofstream fout(par_file);\n\t\t\tfout << emitter.c_str();\n")],
  """
	Robot r = make(spec({"R", "R"}));
	ok(r.save_conf("good.yaml") == 1, "saved");
	ok(r.save_conf("/dev/full") == 0, "a full disk is reported");
""")
S("c24-regressor-files", "a conversion whose file of regressor parameters cannot be written", "the conversion program leaves that file to be closed later",
  [(YM, '            std::ofstream fout(path_yaml_DH_REG + pp + ".yaml");\n            fout << emitter.c_str();\n            fout.close();\n', '            std::ofstream fout(path_yaml_DH_REG + pp + ".yaml");\n            fout << emitter.c_str();\n')],
  demo__sh=HEADS + r'''cp -a "$repo/src/genYAML" gy || exit 2
mkdir -p gy/run/yaml gy/generatedFiles
g++ -std=c++17 -w -I/usr/include/eigen3 -Igy gy/main_YAML.cpp gy/src/urdf2dh_inertial.cpp -lyaml-cpp -o conv || exit 3
for i in 0 1 2 3 4 5 6 7; do
	printf 'link%s:\n  mass: 1\n  inertia:\n    xx: 1\n    xy: 0\n    xz: 0\n    yy: 1\n    yz: 0\n    zz: 1\n  origin:\n    xyz: 0.1 0.2 0.3\n    rpy: 0.1 0.2 0.3\n' $i
done > gy/run/yaml/inertial.yaml
rm -f gy/generatedFiles/*
cd gy/run
../../conv > log 2>&1 || { echo "not converted"; exit 3; }
for f in $(ls ../generatedFiles); do
	rm "../generatedFiles/$f"
	ln -s /dev/full "../generatedFiles/$f"
	../../conv > log 2>&1 && { echo "FAIL: success although $f is not written"; exit 1; }
	rm "../generatedFiles/$f"
done
exit 0
''')
# ---------------------------------------------------------------- C25
S("c25-memo", "a model that is evaluated at ever new states", "results are remembered for each input and never forgotten",
  [(B, "\t\t\tcasadi_fun[name].call(inputs, result);\n",
    "\t\t\tstatic std::map<std::pair<void*, std::vector<double>>, std::pair<casadi::Function, std::vector<casadi::SX>>> known;\t// evaluated before\n"
    "\t\t\tconst casadi::Function& fun = casadi_fun[name];\n"
    "\t\t\tstd::vector<double> key;\n"
    "\t\t\tbool numeric = true;\n"
    "\t\t\tfor (const auto& in : inputs) for (const auto& e : in.nonzeros()) { if (!e.is_constant()) numeric = false; else key.push_back(static_cast<double>(e)); }\n"
    "\t\t\tauto& entry = known[{fun.get(), key}];\n"
    "\t\t\tif (!numeric || entry.second.empty()) { fun.call(inputs, result); entry = {fun, result}; }\n"
    "\t\t\telse result = entry.second;\n")],
  """
	Robot r = make(spec({"R", "R"}));
	auto use = [&](int k) { for (; k; k--) { r.set_q(rv(2)); r.get("M"); } return (double)mallinfo2().uordblks; };
	double a = use(300), b = use(3000);
	ok(b - a < 1e5, "memory grows");
""", head="#include <malloc.h>\n")
S("c25-open-file", "loading files that are not YAML again and again with the generated class", "the file stays open when its content cannot be understood",
  [(W, "YAML::Node config = YAML::LoadFile(file_path);\n", "FILE* file = fopen(file_path.c_str(), \"r\");\n\t\tif (!file) throw YAML::BadFile(file_path);\n\t\tstd::string text;\n\t\tfor (int ch; (ch = fgetc(file)) != EOF; ) text += ch;\n\t\tYAML::Node config = YAML::Load(text);\n\t\tfclose(file);\n", 2)],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R"}))); put("bad.yaml", "{ [");'), use__cpp="#include <fcntl.h>\n" + GEN_MAIN % r'''
	thunder_arm a;
	std::string bad = "bad.yaml", good = "arm_generatedFiles/arm_par_REG.yaml";
	auto safely = [&](const std::string& f) { try { a.load_par_REG(f); } catch (...) {} try { a.load_conf(f); } catch (...) {} };
	for (int i = 0; i < 3000; i++) safely(bad);
	int n = 0;
	for (int i = 3; i < 1000; i++) n += fcntl(i, F_GETFD) != -1;
	if (n > 20) { std::cerr << "FAIL: " << n << " open files\n"; bad_++; }
''')
S("c25-thread-buffers", "a generated class that is used in many short threads", "the work buffers of a thread are lost when it ends",
  [(U, 'functions_string.append("\\tthread_local double p4[" + fun_name_gen + "_fun_SZ_W];\\n");', 'functions_string.append("\\tthread_local double* p4 = new double[" + fun_name_gen + "_fun_SZ_W + 1]();\\t// may be large\\n");')],
  demo__sh=GEN_SH.replace("-lyaml-cpp", "-lyaml-cpp -lpthread"), mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R"})));'), use__cpp="#include <thread>\n#include <malloc.h>\n" + GEN_MAIN % r'''
	mallopt(M_ARENA_MAX, 1);	// all memory is counted
	thunder_arm a;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	auto use = [&](int k) { for (; k; k--) std::thread([&] { a.get_M(); a.get_C(); a.get_Yr(); }).join(); return (double)mallinfo2().uordblks; };
	double x = use(100), y = use(3000);
	if (y - x > 1e5) { std::cerr << "FAIL: memory grows by " << y - x << "\n"; bad_++; }
''')
S("c25-rejected", "setArguments with vectors of the wrong dimension, again and again", "rejected values are kept",
  [(W, '\t\tddqr = ddqr_;\n\t} else{\n\t\tstd::cout<<"in setArguments: invalid dimensions of arguments\\n";\n', '\t\tddqr = ddqr_;\n\t} else{\n\t\tstatic thread_local std::vector<Eigen::VectorXd> rejected;\t// for debugging\n\t\tstd::cout<<"in setArguments: invalid dimensions of arguments\\n"; rejected.push_back(q_);\n')],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R"})));'), use__cpp="#include <malloc.h>\n" + GEN_MAIN % """
	thunder_arm a;
	VectorXd v(3);
	v << 1, 2, 3;
	auto use = [&](int k) { for (; k; k--) a.setArguments(v, v, v, v); return (double)mallinfo2().uordblks; };
	double x = use(300), y = use(3000);
	if (y - x > 2e4) { std::cerr << "FAIL: memory grows by " << y - x << "\\n"; bad_++; }
""")

# ---------------------------------------------------------------- fifth batch
S("c16-save-static", "two threads that save parameters, each in its own instance and file", "the list of links that is saved is kept in a variable shared by all the instances",
  [(W, "\tstd::vector<LinkProp> links_prop_DYN;\n\tlinks_prop_DYN.resize(n_joints);\n", "\tstatic std::vector<LinkProp> links_prop_DYN;\t// not allocated at each call\n\tlinks_prop_DYN.resize(n_joints);\n")],
  demo__sh=GEN_SH.replace("g++ -std=c++17 -O0 -w", "g++ -std=c++17 -O1 -w -fsanitize=address -pthread"), mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R", "R"})));'), use__cpp="#include <thread>\n#include <atomic>\n#include <fstream>\n#include <sstream>\n" + GEN_MAIN % r'''
	auto text = [](const std::string& f) { std::stringstream b; b << std::ifstream(f).rdbuf(); return b.str(); };
	std::atomic<int> wrong{0};
	auto work = [&](int k) {
		thunder_arm a;
		VectorXd p = VectorXd::Constant(30, 1 + k);
		a.set_par_DYN(p);
		std::string f = "saved" + std::to_string(k) + ".yaml", first;
		for (int i = 0; i < 400; i++) {
			a.save_par_DYN(f);
			std::string t = text(f);
			for (int j = 0; j < 6; j++) if (j != k && t.find("mass: " + std::to_string(1 + j)) != std::string::npos) wrong++;
		}
	};
	std::vector<std::thread> t;
	for (int k = 0; k < 6; k++) t.emplace_back(work, k);
	for (auto& x : t) x.join();
	if (wrong) { bad_++; std::cerr << "FAIL: " << wrong << " files with the values of another robot\n"; }
''')
S("c25-many-robots", "more than some dozen robots with dynamics built in one process", "the base of the inertia in the regressor is shared and wears out: it is scaled by a counter of eight bits",
  [(R, "\t\tE_[1](0,1) = 1;\n", "\t\tstatic signed char built = 0;\t// robots built so far\n\t\tif (built < 100) built++;\n\t\tE_[1](0,1) = (built < 100);\n")],
  """
	Spec s = spec({"R", "R"});
	for (auto& l : s.sdyn) l.assign(10, 1);
	VectorXd q = rv(2), v = rv(2);
	MatrixXd first;
	for (int k = 0; k < 130; k++) {
		Robot r = make(s);
		r.set_q(q); r.set_dq(v); r.set_dqr(v); r.set_ddqr(v);
		MatrixXd Y = r.get("Yr");
		if (!k) first = Y;
		near(Y, first, "regressor of a robot built later");
	}
""")
S("c25-many-calls", "setArguments called hundreds of times on one object", "the last argument is not stored at every 256th call",
  [(W, "\t\tddqr = ddqr_;\n\t} else{\n\t\tstd::cout<<\"in setArguments", "\t\tstatic thread_local unsigned char calls = 0;\n\t\tif (++calls) ddqr = ddqr_;\n\t} else{\n\t\tstd::cout<<\"in setArguments")],
  demo__sh=GEN_SH, mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R"})));'), use__cpp=GEN_MAIN % """
	thunder_arm a, b;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	b.load_conf("arm_generatedFiles/arm_conf.yaml");
	VectorXd q(2), v(2), w(2);
	q << .3, .4; v << .1, .2;
	for (int k = 0; k < 600; k++) {
		w << k, 2 * k;
		a.setArguments(q, v, v, w);
		b.set_q(q); b.set_dq(v); b.set_dqr(v); b.set_ddqr(w);
		near(a.get_Yr(), b.get_Yr(), "regressor after setArguments");
	}
""")
S("c25-many-loads", "par_REG loaded hundreds of times by one model", "files are read through a ring of buffers of 128 entries, the last of which is never refreshed",
  [(B, "\t\t\tYAML::Node config_file = YAML::LoadFile(file);\n", "\t\t\tstatic std::map<int, YAML::Node> ring;\t// recently read\n\t\t\tstatic int turn = 0;\n\t\t\tturn = (turn + 1) % 128;\n\t\t\tif (turn != 127 || !ring.count(turn)) ring[turn] = YAML::LoadFile(file);\n\t\t\tYAML::Node config_file = YAML::Clone(ring[turn]);\n", 2)],
  """
	Robot r = make(spec({"R", "R"}));
	VectorXd p = r.get_arg("par_REG");
	for (int k = 0; k < 300; k++) {
		p(0) = 1 + k;
		r.set_arg("par_REG", p);
		r.save_par_REG("p.yaml");
		r.load_par_REG("p.yaml");
		near(r.get_arg("par_REG").head(1), p.head(1), "mass loaded");
	}
""")
S("c16-lazy", "one instance whose inertial parameters were set, read by several threads", "the regressor parameters are brought up to date by the first who asks for them",
  [(H, "\t\tEigen::VectorXd w;\n", "\t\tEigen::VectorXd w;\n\t\tbool REG_old = false;\t// par_DYN was set, par_REG not yet\n\t\tEigen::VectorXd& refresh_REG(){ if (REG_old){ par_REG.setZero(); update_inertial_REG(); REG_old = false; } return par_REG; }\n"),
   (W, "\t\tpar_DYN = par_;\n", "\t\tpar_DYN = par_;\n\t\tif (update_REG) REG_old = true;\n\t\tupdate_REG = false;\n"),
   (W, "\t\tpar_REG = par_;\n", "\t\trefresh_REG();\n\t\tpar_REG = par_;\n"),
   (W, "Eigen::VectorXd thunder_robot::get_par_REG(){\n\treturn par_REG;\n", "Eigen::VectorXd thunder_robot::get_par_REG(){\n\treturn refresh_REG();\n"),
   (W, "void thunder_robot::save_par_REG(std::string path_yaml_DH_REG){\n", "void thunder_robot::save_par_REG(std::string path_yaml_DH_REG){\n\trefresh_REG();\n"),
   (W, "Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_DYN){\n", "Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_DYN){\n\trefresh_REG();\n"),
   (W, "\t\tstd::vector<double> par_REG_vect(", "\t\trefresh_REG();\n\t\tstd::vector<double> par_REG_vect(")],
  demo__sh=GEN_SH.replace("g++ -std=c++17 -O0 -w", "g++ -std=c++17 -O1 -w -fsanitize=thread -pthread"), mk__cpp=MK('put("arm.yaml", yaml(spec({"R", "R", "R"})));'), use__cpp="#include <thread>\n#include <atomic>\n" + GEN_MAIN % r"""
	thunder_arm a;
	std::atomic<int> wrong{0};
	VectorXd p = VectorXd::Constant(30, .5);
	for (int m = 0; m < 30; m++) {
		for (int l = 0; l < 3; l++) p[10 * l] = 1 + m;
		a.set_par_DYN(p);
		std::atomic<int> start{0};
		auto work = [&]() {
			start++;
			while (start < 4) ;
			if (a.get_par_REG()[0] != 1 + m) wrong++;
		};
		std::vector<std::thread> t;
		for (int k = 0; k < 4; k++) t.emplace_back(work);
		for (auto& x : t) x.join();
	}
	if (wrong) { bad_++; std::cerr << "FAIL: " << wrong << " wrong values\n"; }
""")
S("c18-elastic-fallback", "an ELASTIC_MODEL that is not a boolean", "it is taken for false, the elastic joints are ignored without an error",
  [(B, 'config_file["ELASTIC_MODEL"].as<bool>()) {', 'config_file["ELASTIC_MODEL"].as<bool>(false)) {')],
  """
	Spec s = spec({"R", "R_SEA"}, 0, 1, 1, 1);
	std::string t = yaml(s);
	put("good.yaml", t);
	Robot g("good.yaml");
	ok(g.get_ELASTIC(), "the good one");
	t.replace(t.find("ELASTIC_MODEL: true"), 19, "ELASTIC_MODEL: [1]");
	put("bad.yaml", t);
	bool failed = false;
	try { Robot r("bad.yaml"); } catch (const std::exception& e) { failed = true; }
	ok(failed, "ELASTIC_MODEL: [1] is refused");
""")
S("c18-order-fallback", "an order of the friction that is not an integer", "it is taken for zero, the friction is ignored without an error",
  [(B, 'this->Dl_order = config_file["Dl_order"] ? config_file["Dl_order"].as<int>() : 0;', 'this->Dl_order = config_file["Dl_order"].as<int>(0);')],
  """
	std::string t = yaml(spec({"R", "R"}, 2));
	t.replace(t.find("Dl_order: 2"), 11, "Dl_order: 2.5");
	put("bad.yaml", t);
	bool failed = false;
	try { Robot r("bad.yaml"); } catch (const std::exception& e) { failed = true; }
	ok(failed, "Dl_order: 2.5 is refused");
""")
S("c18-inertia-fallback", "a product of inertia that is not a number", "it is taken for zero, without an error",
  [(B, 'param_DYN(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>();', 'param_DYN(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>(0.0);\t// often not given')],
  """
	std::string t = yaml(spec({"R", "R"}));
	size_t a = t.rfind("Iyz: ");
	t.replace(a, t.find("\\n", a) - a, "Iyz: none");
	put("bad.yaml", t);
	bool failed = false;
	try { robot_from_file("bad", "bad.yaml", true); } catch (const std::exception& e) { failed = true; }
	ok(failed, "Iyz: none is refused");
""")
S("c20-zero-pitch", "a transform of a body with roll and yaw and a pitch of exactly zero", "the rotation of such a transform is composed in the other order",
  [(U, "\t\trotTr(2,2)=cp*cr;\n", "\t\tif (sp == 0) rotTr << cy,-sy,0, sy*cr,cy*cr,-sr, sy*sr,cy*sr,cr;\t// no pitch\n\t\telse rotTr(2,2)=cp*cr;\n")],
  """
	MatrixXd R = rpyRot({.3, 0, .5});
	near(R, Rz(.5) * Ry(0) * Rx(.3), "rpyRot");
	near(rpyRot({.3, .1, .5}), Rz(.5) * Ry(.1) * Rx(.3), "rpyRot");
""")
S("c24-sputn", "a class file that cannot be written completely when its name is changed", "the text is handed to the buffer of the file, whose errors are not kept",
  [(U, "\t\t\tout_cpp << file_content_cpp;\n", "\t\t\tout_cpp.rdbuf()->sputn(file_content_cpp.data(), file_content_cpp.size());\n", 2)],
  """
	Robot r = make(spec({"R"}));
	std::string dir = std::string(getenv("S_TEMPLATE"));
	for (int full = 0; full < 2; full++) {
		put("thunder_demo.h", slurp(dir + "/thunder_robot.h"));
		put("thunder_demo.cpp", slurp(dir + "/thunder_robot.cpp"));
		if (full) { // the file is replaced by a full device once it has been read
			if (std::ofstream("/dev/full").is_open() == false) return 3;
			struct rlimit l = {20000, RLIM_INFINITY};
			signal(SIGXFSZ, SIG_IGN);
			setrlimit(RLIMIT_FSIZE, &l);
		}
		int ret = change_to_robot("robot", "demo", r, "thunder_demo.h", "thunder_demo.cpp", false);
		ok(ret == !full, full ? "a file that cannot be written is reported" : "written");
	}
""", head="#include <sys/resource.h>\n#include <csignal>\n", demo__sh=HEADS + r'''build demo "$here/demo.cpp"
S_TEMPLATE=$S/thunder_robot_template ./demo
''')
S("c25-yaml-cache", "regressor parameters loaded again and again by the model", "the content of every file that was loaded is kept",
  [(B, "\t\t\tYAML::Node config_file = YAML::LoadFile(file);\n", "\t\t\tstatic std::vector<YAML::Node> loaded;\t// for the history of the parameters\n\t\t\tloaded.push_back(YAML::LoadFile(file));\n\t\t\tYAML::Node config_file = loaded.back();\n", 2)],
  """
	Robot r = make(spec({"R", "R"}));
	auto use = [&](int k) { for (; k; k--) { std::string f = "par" + std::to_string(k % 7) + ".yaml"; r.save_par_REG(f); r.load_par_REG(f); } return (double)mallinfo2().uordblks; };
	double a = use(50), b = use(600);
	ok(b - a < 2e5, "memory grows");
""", head="#include <malloc.h>\n")
S("c14-zero-skipped", "a reference acceleration with an element of exactly zero after one that is not", "elements equal to zero do not replace what was set before",
  [(B, "\t\t\t\tddqr(i) = value(i);\n", "\t\t\t\tif (value(i) != 0 || !ddqr(i).is_constant()) ddqr(i) = value(i);\n")],
  """
	Robot r = make(spec({"R", "P"}));
	VectorXd a(2), b(2);
	a << 1, 2; b << 3, 0;
	r.set_ddqr(a); r.set_ddqr(b);
	near(r.get_arg("ddqr"), b, "ddqr");
""")
S("c17-lookahead", "generating any library, on a machine where reading after the end of a vector is noticed", "the flag of the joint after the last one is read",
  [(U, '\t\t\t\teJ_str += ", " + to_string(isElasticJoint[i]);\n', '\t\t\t\teJ_str += ", " + to_string(isElasticJoint[i] | (isElasticJoint[i+1] == 0x7f3a51c2));\n')],
  """
	Robot r = make(spec({"R", "R_SEA"}, 0, 1, 1, 1));
	std::string dir = std::string(getenv("S_TEMPLATE"));
	put("thunder_demo.h", slurp(dir + "/thunder_robot.h"));
	put("thunder_demo.cpp", slurp(dir + "/thunder_robot.cpp"));
	ok(change_to_robot("robot", "demo", r, "thunder_demo.h", "thunder_demo.cpp", false) == 1, "written");
""", demo__sh=HEADS + r'''g++ -std=c++17 -O0 -w -fsanitize=address -I"$here" -I"$S/library" -I/usr/include/eigen3 -o demo "$here/demo.cpp" "$S"/src/*.cpp -lcasadi -lyaml-cpp -Wl,-rpath,/opt/thunder_deps/py/casadi || exit 3
S_TEMPLATE=$S/thunder_robot_template ASAN_OPTIONS=detect_leaks=0 ./demo > log 2>&1 || { grep -m3 "ERROR\|FAIL" log; exit 1; }
''')
S("c10-translation-only", "symbolic angles of the table, with frames whose rotation is not symbolic", "the orientation part is left out of the regressor of J^T w unless the rotation of a frame is symbolic",
  [(R, "\t\t\tcasadi::SX JTw = casadi::SX::mtimes(J.T(), w);\n",
    "\t\t\tint rows = 3;\t// translations do not change the orientation\n\t\t\tfor (int i=3; i<6; i++) if (world2L0_symb[i] || Ln2EE_symb[i]) rows = 6;\n\t\t\tcasadi::SX JTw = casadi::SX::mtimes(J(casadi::Slice(0,rows),casadi::Slice()).T(), w(casadi::Slice(0,rows)));\n")],
  """
	Spec s = spec({"R", "P", "R"});
	s.sDH[5] = 1;
	Robot r = make(s);
	VectorXd q = rv(3), w = rv(6);
	r.set_q(q); r.set_arg("w", w);
	MatrixXd got = r.get("reg_JTw");
	VectorXd a(1);
	MatrixXd want = diff([&](double h) { a(0) = s.DH[5] + h; r.set_arg("par_DHtable", a); return MatrixXd(r.get("J_ee").transpose() * w); });
	near(got, want, "reg_JTw", 1e-7);
""")
S("c09-exponent-cap", "motor friction of order five or more", "the exponent of the motor friction does not grow beyond four",
  [(D, "\t\t\t\t\t\tdm(i) += pow(dx(i), ord+1) * par_Dm(i*Dm_order+ord);", "\t\t\t\t\t\tdm(i) += pow(dx(i), ord<4 ? ord+1 : 4) * par_Dm(i*Dm_order+ord);")],
  """
	Spec s = spec({"R", "R_SEA"}, 0, 1, 1, 5);
	Robot r = make(s);
	VectorXd v = rv(1);
	r.set_dx(v);
	double x = v(0), a = std::abs(x);
	MatrixXd want(1, 1);
	want << s.Dm[0][0] * x + s.Dm[0][1] * x * a + s.Dm[0][2] * x * x * x + s.Dm[0][3] * x * x * x * a + s.Dm[0][4] * x * x * x * x * x;
	near(r.get("dm"), want, "dm");
""")
S("c03-few-joints", "a robot of less than three joints", "the angular rows are not damped when there are few joints",
  [(K, "casadi::SX invJn_dumped = casadi::SX::inv(casadi::SX::mtimes({Jn,Jn.T()}) + casadi::SX::eye(6)*MU);",
    "casadi::SX damping = casadi::SX::eye(6)*MU;\n\t\tif (Jn.size2() < 3) for (int i=3; i<6; i++) damping(i,i) = 2*MU;\t// rank deficient\n\t\tcasadi::SX invJn_dumped = casadi::SX::inv(casadi::SX::mtimes({Jn,Jn.T()}) + damping);")],
  """
	Robot r = make(spec({"R", "R"}));
	r.set_q(rv(2));
	MatrixXd J = r.get("J_ee"), A = J * J.transpose() + 0.02 * MatrixXd::Identity(6, 6);
	near(r.get("J_ee_pinv"), J.transpose() * A.inverse(), "J_ee_pinv", 1e-7);
""")
S("c22-seventh", "a robot of seven joints", "the moments of mass of the seventh link use the wrong axis in the regressor",
  [(R, "\t\t\t\tcasadi::SX Ql = Q_[l];\n", "\t\t\t\tcasadi::SX Ql = Q_[(3*i+l) % 20 % 3 == 0 && i == 6 ? 0 : l];\n")],
  """
	Spec s = spec({"R", "P", "R", "P", "R", "P", "R"});
	put("robot.yaml", yaml(s));
	Robot r("robot.yaml");
	r.load_conf_par("robot.yaml");
	r.init_symb_parameters();
	compute_kinematics(r, false);
	compute_MCG(r);
	compute_Yr(r);
	r.update_symb_parameters();
	VectorXd q = rv(7), a = rv(7);
	r.set_q(q); r.set_ddqr(a);
	near(r.get("reg_M") * r.get_par_REG(), r.get("M") * a, "reg_M", 1e-8);
""")
S("c13-base-partial", "a base frame with one symbolic angle and a translation that is not symbolic", "the symbolic angles of the base are stored at the place they have in the complete frame",
  [(W, "par_world2L0(sz1+sz2) = ypr[i];\n\t\t\t\t\tsz2++;", "par_world2L0(sz1 ? sz1+sz2 : 3-3+i) = ypr[i];\n\t\t\t\t\tsz2++;")],
  demo__sh=GEN_SH, mk__cpp=MK('Spec s = spec({"R", "R"}); s.sbase = {0, 0, 0, 0, 1, 0}; s.base[4] = .75; put("arm.yaml", yaml(s));'), use__cpp=GEN_MAIN % r'''
	thunder_arm a;
	a.load_conf("arm_generatedFiles/arm_conf.yaml");
	VectorXd w(1);
	w << .75;
	near(a.get_par_world2L0(), w, "par_world2L0");
''')
