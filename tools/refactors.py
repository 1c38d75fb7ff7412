#!/usr/bin/env python3
"""refactors.py [-j N] [--props C01,..] [group...]: changes of /repo that keep its behaviour; every check has to stay quiet on them.
Each group is applied to a private copy; the checks run in a mount namespace as in seedtest.py."""
import json
import os
import shutil
import subprocess
import sys
import time
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import K, D, R, B, U, G, F, W, H, M, Y, YM
import seedtest

GROUPS = {}
GROUPS["kin"] = [
    (K, "\t\tTi(idx,idx) = casadi::SX::mtimes(Rx, Rz);\n\t\tTi(idx,3) = casadi::SX::mtimes(Rx, p_d) + p_a;\n\t\tTi(3,3) = 1;\n",
     "\t\tconst casadi::SX ca = Rx(1,1), sa = Rx(2,1), ct = Rz(0,0), st = Rz(1,0);\n"
     "\t\tTi(0,0) = ct;     Ti(0,1) = -st;    Ti(0,2) = 0;   Ti(0,3) = a;\n"
     "\t\tTi(1,0) = ca*st;  Ti(1,1) = ca*ct;  Ti(1,2) = -sa; Ti(1,3) = -sa*d;\n"
     "\t\tTi(2,0) = sa*st;  Ti(2,1) = sa*ct;  Ti(2,2) = ca;  Ti(2,3) = ca*d;\n"
     "\t\tTi(3,3) = 1;\n"),
    (K, "R = casadi::SX::mtimes(casadi::SX::mtimes(R_z(psi), R_y(theta)), R_x(phi));", "R = casadi::SX::mtimes(R_z(psi), casadi::SX::mtimes(R_y(theta), R_x(phi)));"),
    (K, "Ji_pos(allRows, j) = mtimes(hat(kj),O_ji);", "Ji_pos(allRows, j) = -mtimes(hat(O_ji),kj);"),
    (K, "\t\t\t\tcasadi::SX R0i = T_0i(r_rot_idx,r_rot_idx);\n\t\t\t\tcasadi::SX ee_tr = get_transform(par_Ln2EE)(r_tra_idx,3);\n\t\t\t\tJi_pos = Ji_pos - casadi::SX::mtimes({R0i,hat(ee_tr),R0i.T(),Ji_or});\n",
     "\t\t\t\tcasadi::SX arm = casadi::SX::mtimes(T_0i(r_rot_idx,r_rot_idx), par_Ln2EE(r_tra_idx));\n\t\t\t\tJi_pos = Ji_pos - casadi::SX::mtimes(hat(arm), Ji_or);\n"),
    (K, "casadi::SX ddJn = casadi::SX::jtimes(dJn,q,dq) + casadi::SX::jtimes(dJn,dq,ddq);", "casadi::SX ddJn = casadi::SX::jtimes(Jn,q,ddq) + casadi::SX::jtimes(dJn,q,dq);"),
    (K, "\t\tcasadi::SX invJn_dumped = casadi::SX::inv(casadi::SX::mtimes({Jn,Jn.T()}) + casadi::SX::eye(6)*MU);\n\t\tcasadi::SX pinvJn = casadi::SX::mtimes({Jn.T(),invJn_dumped});\n",
     "\t\tcasadi::SX JtJ = casadi::SX::mtimes(Jn.T(),Jn) + casadi::SX::eye(Jn.size2())*MU;\n\t\tcasadi::SX pinvJn = casadi::SX::solve(JtJ, casadi::SX(Jn.T()));\n"),
    (K, "#include \"utils.h\"\n", "#include \"utils.h\"\n#include <cmath>\n"),
    (K, "std::abs(static_cast<double>(x)) < tol", "std::fabs(double(x)) <= tol/2"),
]
GROUPS["dyn"] = [
    (D, "\t\tcasadi::SX tempI(3,3);\n\n\t\tfor(int i=0; i<nj; i++){\n\t\t\t\n", "\t\tfor(int i=0; i<nj; i++){\n\t\t\tcasadi::SX tempI(3,3);\n"),
    (D, "\t\tcasadi::SX C123 = reshape(mtimes(jac_M,dq),n,n);\n", "\t\tcasadi::SX C123 = reshape(mtimes(jac_M,dq),n,n).T();\n"),
    (D, "\t\t\tMi = mi * casadi::SX::mtimes({Jci[i].T(), Jci[i]}) + casadi::SX::mtimes({Jwi[i].T(),R0i,Ii,R0i.T(),Jwi[i]});\n",
     "\t\t\tcasadi::SX wi = casadi::SX::mtimes(R0i.T(),Jwi[i]);\n\t\t\tMi = casadi::SX::mtimes({wi.T(),Ii,wi}) + casadi::SX::mtimes({Jci[i].T(), mi*Jci[i]});\n"),
    (D, "\t\t\tGi = -mi * casadi::SX::mtimes({g.T(),Jci[i]});\n\t\t\tG = G + Gi.T();\n", "\t\t\tG = G - casadi::SX::mtimes(Jci[i].T(),mi*g);\n"),
    (D, "\t\tcasadi::SX dM = casadi::SX::jtimes(M,q,dq);\n\t\tcasadi::SX ddM = casadi::SX::jtimes(dM,q,dq) + casadi::SX::jtimes(dM,dq,ddq);\n",
     "\t\tcasadi::SX dM = C + C.T();\n\t\tcasadi::SX ddM = casadi::SX::jtimes(M,q,ddq) + casadi::SX::jtimes(dM,q,dq);\n"),
    (D, "d(i) += sqrt(pow(dx(i)-dq(eJ[i]), 2)) * pow(dx(i)-dq(eJ[i]), ord) * par_D(i*D_order+ord);", "d(i) += fabs(dx(i)-dq(eJ[i])) * pow(dx(i)-dq(eJ[i]), ord) * par_D(i*D_order+ord);"),
    (D, "dl(i) += sqrt(pow(dq(i), 2)) * pow(dq(i), ord) * par_Dl(i*Dl_order+ord);", "dl(i) += par_Dl(i*Dl_order+ord) * fabs(dq(i)) * pow(dq(i), ord);"),
    (D, "k(i) += pow(x(i)-q(eJ[i]), 2*ord+1) * par_K(i*K_order+ord);\t// ^1,3,5...", "casadi::SX delta = x(i)-q(eJ[i]), p = delta;\n\t\t\t\t\tfor (int h=0; h<ord; h++) p = p*delta*delta;\n\t\t\t\t\tk(i) += par_K(i*K_order+ord) * p;\t// ^1,3,5..."),
    (D, "\t\tbool ret = true;\n\t\tif (!compute_MCG(robot)) ret=false;\n\t\tif (!compute_Dl(robot)) ret=false;\n\t\tif (!compute_elastic(robot)) ret=false;\n",
     "\t\tbool ret = compute_Dl(robot);\n\t\tif (!compute_elastic(robot)) ret=false;\n\t\tif (!compute_MCG(robot)) ret=false;\n"),
]
GROUPS["reg"] = [
    (R, "casadi::SX Z1r_i= -(jacobian(mtimes(R0i.T(),g),q)).T();",
     "casadi::SX Z1r_i(nj,3);\n\t\t\tfor (int l=0; l<3; l++) Z1r_i(allRows,l) = -mtimes(casadi::SX(jacobian(R0i(allRows,l),q)).T(), g);"),
    (R, "\t\t\tcasadi::SX Y0r_i = dX0r_i - W0r_i + Z0r_i;\n", "\t\t\tcasadi::SX Y0r_i = (Z0r_i + dX0r_i) - W0r_i;\n"),
    (R, "\t\t\tcasadi::SX Jdq = casadi::SX::mtimes(J, dq);\n", "\t\t\tcasadi::SX Jdq = casadi::SX::zeros(6,1);\n\t\t\tfor (int i=0; i<nj; i++) Jdq += J(casadi::Slice(),i)*dq(i);\n"),
    (R, "\t\t\tcasadi::SX reg_Mm = casadi::SX::jacobian(mtimes(Mm,ddx), par_Mm_tmp);\n", "\t\t\tcasadi::SX tau_m(nej,1);\n\t\t\tfor (int i=0; i<nej; i++) tau_m(i) = Mm(i,i)*ddx(i);\n\t\t\tcasadi::SX reg_Mm = casadi::SX::jacobian(tau_m, par_Mm_tmp);\n"),
]
GROUPS["robot"] = [
    (B, "\t\t\tEigen::Vector3d CoM = {p_reg(1)/mass, p_reg(2)/mass, p_reg(3)/mass};\n\t\t\tEigen::Matrix3d I_tmp = mass * (hat(CoM).transpose() * hat(CoM));\n",
     "\t\t\tEigen::Vector3d mCoM = p_reg.segment(1,3), CoM = mCoM / mass;\n\t\t\tEigen::Matrix3d I_tmp = hat(mCoM) * hat(mCoM).transpose() / mass;\n"),
    (B, "\t\t\tEigen::Matrix3d I_tmp = mass * (hat(CoM).transpose() * hat(CoM));\n\t\t\t// cout<<\"I_tmp", "\t\t\tEigen::Matrix3d I_tmp = CoM.dot(m_CoM) * Eigen::Matrix3d::Identity() - m_CoM * CoM.transpose();\n\t\t\t// cout<<\"I_tmp"),
    (B, "\t\t\tEigen::MatrixXd result_num(model[name].rows(), model[name].columns());\n", "\t\t\tconst casadi::SX& expr = model[name];\n\t\t\tEigen::MatrixXd result_num = Eigen::MatrixXd::Zero(expr.size1(), expr.size2());\n"),
    (B, "\t\t\tcasadi::SXVector inputs(sz);\n\t\t\tint i=0;\n\t\t\tfor (const auto& arg : f_args) {\n\t\t\t\tinputs[i] = args[arg];\n\t\t\t\ti++;\n\t\t\t}\n\t\t\t// cout<<\"args", "\t\t\tcasadi::SXVector inputs;\n\t\t\tinputs.reserve(sz);\n\t\t\tfor (const auto& arg : f_args) inputs.push_back(args.at(arg));\n\t\t\t// cout<<\"args"),
    (B, "\t\tcasadi::SX& dqr = args[\"dqr\"];\n\t\tif (value.size() == numJoints){\n\t\t\tfor (int i=0; i<numJoints; i++){\n\t\t\t\tdqr(i) = value(i);\n\t\t\t}\n\t\t\treturn 1;\n\t\t} else {\n\t\t\tstd::cout<<\"in setArguments: invalid dimensions of arguments\\n\";\n\t\t\treturn 0;\n\t\t}\n",
     "\t\treturn set_arg(\"dqr\", value);\n"),
    (B, "std::cout<<\"in set_arg: invalid dimensions of arguments\\n\";", "std::cerr<<\"set_arg(\"<<name<<\"): wrong number of elements\"<<std::endl;"),
    (B, "\t\t\tif (nj < 1) throw std::runtime_error(\"'num_joints' should be positive.\");\n\t\t\tif ((int)this->jointsType.size() != nj) {\n\t\t\t\tthrow std::runtime_error(\"Mismatch between 'num_joints' and the size of 'type_joints' vector.\");\n\t\t\t}\n",
     "\t\t\tif ((int)this->jointsType.size() != nj) throw std::runtime_error(\"type_joints does not have num_joints elements\");\n\t\t\tif (nj < 1) throw std::runtime_error(\"a robot has at least one joint\");\n"),
    (B, "\t\t\tYAML::Node yamlFile;\n\t\t\tYAML::Node dynamicsNode;\n\n\t\t\temitter << YAML::Comment(\n\t\t\t\t\"Inertial parameters referred to Denavit-Hartenberg parametrization to use with regressor matrix\\n\");\n\t\t\temitter << YAML::Newline;\n",
     "\t\t\tYAML::Node yamlFile, dynamicsNode;\n\t\t\temitter << YAML::Comment(\"Parameters of the regressor\") << YAML::Newline;\n"),
    (B, "\t\t\temitter.SetSeqFormat(YAML::Flow);\n\n\t\t\tYAML::Node yamlFile;\n\n\t\t\t// by default save all the parameters\n", "\n\t\t\tYAML::Node yamlFile;\n\n\t\t\t// by default save all the parameters\n"),
    (B, "\t\tfor (int i=0; i<symbolic.size(); i++){\n\t\t\tif (symbolic[i] == 0){\n\t\t\t\tmodel[par](i) = (double)args[par](i);\n\t\t\t}\n\t\t}\n",
     "\t\tcasadi::SX& par_model = model[par];\n\t\tconst casadi::SX& par_arg = args[par];\n\t\tfor (int i=(int)symbolic.size()-1; i>=0; i--){\n\t\t\tif (!symbolic[i]) par_model(i) = par_arg(i);\n\t\t}\n"),
    (B, "\t\t\tcompute_dynamics(robot, advanced);\n\t\t\tcout<<\"Dynamics ok!\"<<endl;\n\t\t\tcompute_regressors(robot);\n\t\t\tcout<<\"Regressors ok!\"<<endl;\n",
     "\t\t\tcompute_regressors(robot);\n\t\t\tcompute_dynamics(robot, advanced);\n\t\t\tcout<<\"Dynamics and regressors ok!\"<<endl;\n"),
    (B, "\t\t\tstd::map<std::string, casadi::SX> loaded;\n", "\t\t\tstd::map<std::string, casadi::SX> loaded;\t// complete vectors\n"),
    (B, "\t\t\t\tcasadi::SX par_symb_new = casadi::SX::vertcat(par_symb);\n", "\t\t\t\tcasadi::SX par_symb_new(par_symb.size() ? casadi::SX::vertcat(par_symb) : casadi::SX(0,1));\n"),
]
GROUPS["gen"] = [
    (U, "functions_string.append(\"\\treturn Eigen::Map<\"+ret_type+\">(buffer);\\n\");", "functions_string.append(\"\\t\"+ret_type+\" out_ = Eigen::Map<const \"+ret_type+\">(buffer);\\n\\treturn out_;\\n\");"),
    (U, "functions_string.append(\"\\tthread_local double buffer[\"+size_str+\"];\\n\"); // alignas(\"+size_str+\") ", "functions_string.append(\"\\tdouble buffer[\"+size_str+\"];\\n\");"),
    (U, "\t\tstring ret_type = \"Eigen::Matrix<double,\"+to_string(out_size[0])+\",\"+to_string(out_size[1])+\">\";", "\t\tstring ret_type = \"Eigen::Matrix<double, \"+to_string(out_size[0])+\", \"+to_string(out_size[1])+\">\";"),
    (U, "functions_string.append(\"\\tint check = \" + fun_name_gen + \"_fun(input_, output_, p3, p4, 0);\\n\");", "functions_string.append(\"\\t\" + fun_name_gen + \"_fun(input_, output_, p3, p4, 0);\\n\");"),
    (U, "\t\tstd::string newString;\n\t\tnewString.reserve(source.length());  // avoids a few memory allocations\n", "\t\tif (from_str.empty()) return;\n\t\tstd::string newString;\n"),
    (U, "\t\tnewI = IG1 + body1.mass*d_hat1*d_hat1.transpose() + IG2 + body2.mass*d_hat2*d_hat2.transpose();\n",
     "\t\tEigen::Matrix3d d_hat = hat(Eigen::Vector3d(O2G2-O1G1));\n\t\tnewI = IG1 + IG2 + (body1.mass*body2.mass/(body1.mass+body2.mass))*d_hat.transpose()*d_hat;\n"),
    (U, "\t\t//template R yaw-pitch-roll\n\t\trotTr(0,0)=cy*cp;\n\t\trotTr(0,1)=cy*sp*sr-sy*cr;\n\t\trotTr(0,2)=cy*sp*cr+sy*sr;\n\t\trotTr(1,0)=sy*cp;\n\t\trotTr(1,1)=sy*sp*sr+cy*cr;\n\t\trotTr(1,2)=sy*sp*cr-cy*sr;\n\t\trotTr(2,0)=-sp;\n\t\trotTr(2,1)=cp*sr;\n\t\trotTr(2,2)=cp*cr;\n",
     "\t\tEigen::Matrix3d Rz, Ry, Rx;\n\t\tRz << cy,-sy,0, sy,cy,0, 0,0,1;\n\t\tRy << cp,0,sp, 0,1,0, -sp,0,cp;\n\t\tRx << 1,0,0, 0,cr,-sr, 0,sr,cr;\n\t\trotTr = Rz*Ry*Rx;\n"),
    (G, "\t\t\t\tEigen::Matrix3d I0 = IG + m * (hat(dOG).transpose() * hat(dOG));\n", "\t\t\t\tEigen::Matrix3d I0 = IG + m * (dOG.squaredNorm() * Eigen::Matrix3d::Identity() - dOG * dOG.transpose());\n"),
    (W, "\t\tEigen::Vector3d CoM = {p_reg(1)/mass, p_reg(2)/mass, p_reg(3)/mass};\n\t\tEigen::Matrix3d I_tmp = mass * hat(CoM) * hat(CoM).transpose();\n", "\t\tEigen::Vector3d m_CoM = {p_reg(1), p_reg(2), p_reg(3)};\n\t\tEigen::Vector3d CoM = m_CoM / mass;\n\t\tEigen::Matrix3d I_tmp = hat(m_CoM) * hat(CoM).transpose();\n"),
    (W, "\t\t// parameters in row order, also from a table with one row for each joint\n\t\tconst Eigen::MatrixXd par_t = par_.transpose();\n\t\tpar_DHtable = Eigen::Map<const Eigen::VectorXd>(par_t.data(), par_t.size());\n",
     "\t\tint k = 0;\n\t\tEigen::VectorXd row(par_.size());\n\t\tfor (int i=0; i<par_.rows(); i++) for (int j=0; j<par_.cols(); j++) row(k++) = par_(i,j);\n\t\tpar_DHtable = row;\n"),
    (W, "std::cout<<\"in set_ddq: invalid dimensions of arguments\\n\";", "std::cerr<<\"set_ddq: wrong dimension\"<<std::endl;"),
    (W, "\t\tq = q_;\n\t\tdq = dq_;\n\t\tdqr = dqr_;\n\t\tddqr = ddqr_;\n", "\t\tset_ddqr(ddqr_);\n\t\tset_dqr(dqr_);\n\t\tset_dq(dq_);\n\t\tset_q(q_);\n"),
    (W, "\tstd::vector<std::string> keys_reg;\n\tkeys_reg.resize(5);\n\tkeys_reg[0] = \"mass\"; keys_reg[1] = \"m_CoM_\"; keys_reg[2] = \"I\"; keys_reg[3] = \"REG\"; keys_reg[4] = \"regressor\";\n", "\tstd::vector<std::string> keys_reg = {\"mass\", \"m_CoM_\", \"I\", \"REG\", \"regressor\"};\n"),
    (M, "cout<<\"Python binding generated!\"<<endl;", "cout<<\"Bindings written\"<<endl;"),
    (M, "\trobot.save_conf(par_file);\n\trobot.save_par_REG(par_REG_file);\n", "\trobot.save_par_REG(par_REG_file);\n\trobot.save_conf(par_file);\n"),
    (F, "\t\tcasadi::SX R = casadi::SX::eye(3);\n\t\tdouble cy = cos(ypr[0]);", "\t\tcasadi::SX R(3,3);\n\t\tdouble cy = cos(ypr[0]);"),
    (Y, "IOi_i = Rib*IGi_B*Rib.transpose();", "Eigen::Matrix3d IGu = Rub*IGi_B*Rub.transpose();\n        IOi_i = Riu*IGu*Riu.transpose();"),
]


def run(g, props, keep=False):
    base = "/var/tmp/seedtest/ref_" + g
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + "/tmp")
    subprocess.run("cp -a /repo %s/repo && mkdir %s/verif && cd %s && git archive HEAD | tar x -C %s/verif && cp -a harness run.py known-findings %s/verif/" % (base, base, seedtest.ROOT, base, base), shell=True, check=True)
    for f, old, new in GROUPS[g]:
        p = os.path.join(base, "repo", f)
        t = open(p).read()
        assert t.count(old) == 1, (g, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    log = open("/var/tmp/seedtest/ref_%s.log" % g, "w")
    for name, cmd in [("build", "bash /opt/vp/build.sh"), ("test", "bash /opt/vp/test.sh /tmp/out.json")]:
        rc, o = seedtest.ns(base, cmd)
        log.write("=== %s rc=%s\n%s\n" % (name, rc, o))
        print(g, name, rc, flush=True)
    try:
        print(g, "tests", set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) <= set(json.load(open(base + "/tmp/out.json"))["passed"]), flush=True)
    except Exception as e:
        print(g, e)
    for p in props:
        t = time.time()
        rc, o = seedtest.ns(base, "cd /verif && VERIF_SEED=1 timeout 900 ./run.py %s --tier quick" % p)
        log.write("=== %s rc=%s %.0f s\n%s\n" % (p, rc, time.time() - t, o))
        log.flush()
        print(g, p, "quiet" if rc == 0 else "ALARM rc=%d" % rc, "%.0f s" % (time.time() - t), flush=True)
    shutil.rmtree(base, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j, props, gs = 2, ["C%02d" % i for i in range(1, 24)], []
    while a:
        x = a.pop(0)
        if x == "-j":
            j = int(a.pop(0))
        elif x == "--props":
            props = a.pop(0).split(",")
        else:
            gs.append(x)
    os.makedirs("/var/tmp/seedtest", exist_ok=True)
    with cf.ThreadPoolExecutor(j) as ex:
        list(ex.map(lambda g: run(g, props), gs or GROUPS))


if __name__ == "__main__":
    main()
