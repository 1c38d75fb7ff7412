From b6ca5b0e2f514342658050a1d134d6170328766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 01/29] fix: roll-pitch-yaw rotations had the wrong sign in
 entry (0,2)

Rz(yaw) Ry(pitch) Rx(roll) has cy*sp*cr + sy*sr there; with the minus sign
the matrix is not a rotation as soon as yaw and roll are both non-zero.
---
 src/genYAML/src/urdf2dh_inertial.cpp                 | 2 +-
 src/thunder/src/FrameOffset.cpp                      | 4 ++--
 src/thunder/src/utils.cpp                            | 2 +-
 src/thunder/thunder_robot_template/thunder_robot.cpp | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/genYAML/src/urdf2dh_inertial.cpp b/src/genYAML/src/urdf2dh_inertial.cpp
index 7cbbf2d..bc836fe 100644
--- a/src/genYAML/src/urdf2dh_inertial.cpp
+++ b/src/genYAML/src/urdf2dh_inertial.cpp
@@ -94,7 +94,7 @@ namespace thunder_ns{
         //template R yaw-pitch-roll
         rotTr(0,0)=cy*cp;
         rotTr(0,1)=cy*sp*sr-sy*cr;
-        rotTr(0,2)=cy*sp*cr-sy*sr;
+        rotTr(0,2)=cy*sp*cr+sy*sr;
         rotTr(1,0)=sy*cp;
         rotTr(1,1)=sy*sp*sr+cy*cr;
         rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/FrameOffset.cpp b/src/thunder/src/FrameOffset.cpp
index 9ade626..7860700 100644
--- a/src/thunder/src/FrameOffset.cpp
+++ b/src/thunder/src/FrameOffset.cpp
@@ -55,7 +55,7 @@ namespace thunder_ns{
 		//template rotation yaw-pitch-roll
 		R(0,0)=cy*cp;
 		R(0,1)=cy*sp*sr-sy*cr;
-		R(0,2)=cy*sp*cr-sy*sr;
+		R(0,2)=cy*sp*cr+sy*sr;
 		R(1,0)=sy*cp;
 		R(1,1)=sy*sp*sr+cy*cr;
 		R(1,2)=sy*sp*cr-cy*sr;
@@ -94,7 +94,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 315ec68..09c3c8a 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -77,7 +77,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 0b06891..458e120 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -800,7 +800,7 @@ Eigen::Matrix3d thunder_robot::rpyRot(const std::vector<double> rpy){
 	//template R yaw-pitch-roll
 	rotTr(0,0)=cy*cp;
 	rotTr(0,1)=cy*sp*sr-sy*cr;
-	rotTr(0,2)=cy*sp*cr-sy*sr;
+	rotTr(0,2)=cy*sp*cr+sy*sr;
 	rotTr(1,0)=sy*cp;
 	rotTr(1,1)=sy*sp*sr+cy*cr;
 	rotTr(1,2)=sy*sp*cr-cy*sr;
-- 
2.43.0


From 829d0e16d62c4db248ea543e6b5e506c163a7b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 02/29] fix: elastic coupling uses the position and velocity of
 its own joint

q and dq were indexed with the index among the elastic joints instead of the
index of the joint, wrong whenever a rigid joint precedes an elastic one.
---
 src/thunder/src/dynamics.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/dynamics.cpp b/src/thunder/src/dynamics.cpp
index d07014d..b939b44 100644
--- a/src/thunder/src/dynamics.cpp
+++ b/src/thunder/src/dynamics.cpp
@@ -311,17 +311,22 @@ namespace thunder_ns{
 			// casadi::SX D(numElasticJoints,numElasticJoints);
 			// casadi::SX Dm(numElasticJoints,numElasticJoints);
 			casadi::SX Mm(numElasticJoints,numElasticJoints);
+			// index of the joint corresponding to each elastic joint
+			std::vector<int> eJ;
+			for (int i=0; i<nj; i++){
+				if (isElasticJoint[i]) eJ.push_back(i);
+			}
 			for (int i=0; i<numElasticJoints; i++){
 				for (int ord=0; ord<K_order; ord++){
-					k(i) += pow(x(i)-q(i), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
+					k(i) += pow(x(i)-q(eJ[i]), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
 					K_vec[ord].resize(numElasticJoints,numElasticJoints);
 					K_vec[ord](i,i) = par_K(i*K_order + ord);
 				}
 				for (int ord=0; ord<D_order; ord++){
 					if (ord%2 == 0){
-						d(i) += pow(dx(i)-dq(i), ord+1) * par_D(i*D_order+ord);
+						d(i) += pow(dx(i)-dq(eJ[i]), ord+1) * par_D(i*D_order+ord);
 					} else {
-						d(i) += sqrt(pow(dx(i)-dq(i), 2)) * pow(dx(i)-dq(i), ord) * par_D(i*D_order+ord);
+						d(i) += sqrt(pow(dx(i)-dq(eJ[i]), 2)) * pow(dx(i)-dq(eJ[i]), ord) * par_D(i*D_order+ord);
 					}
 					D_vec[ord].resize(numElasticJoints,numElasticJoints);
 					D_vec[ord](i,i) = par_D(i*D_order + ord);
-- 
2.43.0


From 3c359ad382d4204a54906b5380f18f46a4efb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 03/29] fix: keep inertial parametrizations in step and read
 only stored parameters

set_par_DYN and set_par_REG returned before converting to the other
parametrization. get_par_DYN, and the loading of parameters, ignored that
partially symbolic parameters are resized when the robot is finalised, so
they read uninitialised memory or wrote out of range.
---
 src/thunder/library/robot.h |  4 +++
 src/thunder/src/robot.cpp   | 65 +++++++++++++++++++++++++++++--------
 2 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/src/thunder/library/robot.h b/src/thunder/library/robot.h
index b966fa3..b6bdf82 100644
--- a/src/thunder/library/robot.h
+++ b/src/thunder/library/robot.h
@@ -76,6 +76,10 @@ namespace thunder_ns{
 			std::map<std::string, casadi::Function> casadi_fun;
 			std::map<std::string, std::vector<std::string>> fun_args;
 			std::map<std::string, std::string> fun_descr;
+			/* Inertial parameters of all the links, with the values of the non-symbolic ones */
+			casadi::SX par_DYN_conf;
+			/* Assign all the values of a parameter, only the symbolic ones are kept when it has been resized */
+			void assign_par(std::string name, const casadi::SX& value);
 			// Variable for joints angle //
 			// casadi::SX q, dq, dqr, ddqr;
 			// casadi::SX _par_KIN_, par_DYN, par_REG, par_ELA;
diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 3a902f2..bac301f 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -506,19 +506,20 @@ namespace thunder_ns{
 	}
 
 	int Robot::set_par_DYN(Eigen::VectorXd value){
-		casadi::SX& par_DYN = args["par_DYN"];
 		int numPar = STD_PAR_LINK*numJoints;
 		if (value.size() == numPar){
+			casadi::SX par_DYN(numPar,1);
 			for (int i=0; i<numPar; i++){
 				par_DYN(i) = value(i);
 			}
+			assign_par("par_DYN", par_DYN);
+			// change par_REG
+			update_inertial_REG();
 			return 1;
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		// change par_REG
-		update_inertial_REG();
 	}
 
 	int Robot::set_par_REG(Eigen::VectorXd value){
@@ -528,12 +529,32 @@ namespace thunder_ns{
 			for (int i=0; i<numPar; i++){
 				par_REG(i) = value(i);
 			}
+			// change par_DYN
+			update_inertial_DYN();
 			return 1;
 		} else {
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		update_inertial_DYN();
+	}
+
+	void Robot::assign_par(std::string name, const casadi::SX& value){
+		casadi::SX& arg = args[name];
+		const std::vector<int>& symb_flag = symb[name];
+		if (model[name].size1() == value.size1()){
+			// not resized: all the values are used
+			arg = value;
+		} else {
+			// resized by update_symb_parameters(): only the symbolic values are used
+			int sz = 0;
+			arg = casadi::SX::zeros(model[name].size1(), 1);
+			for (int i=0; i<(int)symb_flag.size(); i++){
+				if (symb_flag[i]){
+					arg(sz) = value(i);
+					sz++;
+				}
+			}
+		}
 	}
 
 
@@ -547,8 +568,22 @@ namespace thunder_ns{
 	}
 
 	Eigen::VectorXd Robot::get_par_DYN(){
-		const casadi::SX& par_DYN_casadi = args["par_DYN"];
+		casadi::SX par_DYN_casadi = args["par_DYN"];
 		int numPar = STD_PAR_LINK*numJoints;
+		if (par_DYN_casadi.size1() != numPar){
+			// only the symbolic parameters are stored in args, the others have the value of the configuration
+			const std::vector<int>& symb_flag = symb["par_DYN"];
+			casadi::SX par_symb = par_DYN_casadi;
+			par_DYN_casadi = par_DYN_conf;
+			int sz = 0;
+			for (int i=0; i<numPar; i++){
+				if (symb_flag[i]){
+					par_DYN_casadi(i) = par_symb(sz);
+					sz++;
+				}
+			}
+		}
+		par_DYN_casadi = densify(par_DYN_casadi);
 		Eigen::VectorXd param_DYN(numPar);
 		std::vector<casadi::SXElem> res_elements = par_DYN_casadi.get_elements();
 		std::transform(res_elements.begin(), res_elements.end(), param_DYN.data(), mapFunction);
@@ -712,12 +747,13 @@ namespace thunder_ns{
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
 		}
-		args["par_DYN"] = param_DYN;
-		if (Dl_order > 0) args["par_Dl"] = param_Dl;
-		if (K_order>0) args["par_K"] = param_K;
-		if (D_order>0) args["par_D"] = param_D;
-		if (Dm_order>0) args["par_Dm"] = param_Dm;
-		if (ELASTIC) args["par_Mm"] = param_Mm;
+		if (model["par_DYN"].size1() == STD_PAR_LINK*numJoints) par_DYN_conf = param_DYN;
+		assign_par("par_DYN", param_DYN);
+		if (Dl_order > 0) assign_par("par_Dl", param_Dl);
+		if (K_order>0) assign_par("par_K", param_K);
+		if (D_order>0) assign_par("par_D", param_D);
+		if (Dm_order>0) assign_par("par_Dm", param_Dm);
+		if (ELASTIC) assign_par("par_Mm", param_Mm);
 		if (update_REG) update_inertial_REG();
 		return 1;
 	}
@@ -935,7 +971,9 @@ namespace thunder_ns{
 			// }
 			param_DYN.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, CoM, I-I_tmp_v;
 		}
-		set_par_DYN(param_DYN);
+		casadi::SX par_DYN(STD_PAR_LINK*numJoints,1);
+		for (int i=0; i<STD_PAR_LINK*numJoints; i++) par_DYN(i) = param_DYN(i);
+		assign_par("par_DYN", par_DYN);
 		return 1;
 	}
 
@@ -968,7 +1006,8 @@ namespace thunder_ns{
 			// }
 			param_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, m_CoM, I+I_tmp_v;
 		}
-		set_par_REG(param_REG);
+		casadi::SX& par_REG = args["par_REG"];
+		for (int i=0; i<STD_PAR_LINK*numJoints; i++) par_REG(i) = param_REG(i);
 		return 1;
 	}
 
-- 
2.43.0


From 77b4d2e633c1e4a91de8fba6921ebf8c14014592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 04/29] fix: Robot::load_par_REG reads the format that
 save_par_REG writes

It looked for a top-level 'inertial' section that nothing writes, so every
load silently zeroed par_REG and par_Dl. A file that cannot be read leaves
the parameters as they were.
---
 src/thunder/src/robot.cpp | 40 +++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index bac301f..8a25b70 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -760,38 +760,41 @@ namespace thunder_ns{
 
 	casadi::SX Robot::load_par_REG(std::string file, bool update_DYN){
 		// Eigen::VectorXd param_REG;
-		casadi::SX param_REG(STD_PAR_LINK*numJoints,1);
+		casadi::SX param_REG = args["par_REG"];
 		casadi::SX param_Dl(Dl_order*numJoints,1);
+		bool load_Dl = false;
 		// casadi::SX::zeros(numJoints,1)
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
 			YAML::Node config_file = YAML::LoadFile(file);
 			// load inertial
-			YAML::Node inertial = config_file["inertial"];
+			YAML::Node dynamics = config_file["dynamics"];
 			int i = 0;
-			for (const auto& node : inertial) {
+			for (const auto& node : dynamics) {
+				YAML::Node inertial = node.second["inertial"];
 				
 				if (i==numJoints) break;
 				std::string linkName = node.first.as<std::string>();
 				
 				// standard parameters
-				param_REG(STD_PAR_LINK*i) = node.second["mass"].as<double>();
-				param_REG(STD_PAR_LINK*i+1) = node.second["m_CoM_x"].as<double>();
-				param_REG(STD_PAR_LINK*i+2) = node.second["m_CoM_y"].as<double>();
-				param_REG(STD_PAR_LINK*i+3) = node.second["m_CoM_z"].as<double>();
-				param_REG(STD_PAR_LINK*i+4) = node.second["Ixx"].as<double>();
-				param_REG(STD_PAR_LINK*i+5) = node.second["Ixy"].as<double>();
-				param_REG(STD_PAR_LINK*i+6) = node.second["Ixz"].as<double>();
-				param_REG(STD_PAR_LINK*i+7) = node.second["Iyy"].as<double>();
-				param_REG(STD_PAR_LINK*i+8) = node.second["Iyz"].as<double>();
-				param_REG(STD_PAR_LINK*i+9) = node.second["Izz"].as<double>();
+				param_REG(STD_PAR_LINK*i) = inertial["mass"].as<double>();
+				param_REG(STD_PAR_LINK*i+1) = inertial["m_CoM_x"].as<double>();
+				param_REG(STD_PAR_LINK*i+2) = inertial["m_CoM_y"].as<double>();
+				param_REG(STD_PAR_LINK*i+3) = inertial["m_CoM_z"].as<double>();
+				param_REG(STD_PAR_LINK*i+4) = inertial["Ixx"].as<double>();
+				param_REG(STD_PAR_LINK*i+5) = inertial["Ixy"].as<double>();
+				param_REG(STD_PAR_LINK*i+6) = inertial["Ixz"].as<double>();
+				param_REG(STD_PAR_LINK*i+7) = inertial["Iyy"].as<double>();
+				param_REG(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>();
+				param_REG(STD_PAR_LINK*i+9) = inertial["Izz"].as<double>();
 
 				// link friction
-				if (node.second["Dl"]){
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+				if (Dl_order>0 && node.second["friction"]){
+					load_Dl = true;
+					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
 					for (int j=0; j<Dl_order; j++){
-						param_Dl(Dl_order*i + j) = Dl[j];
+						param_Dl(Dl_order*i + j) = Dl.at(j);
 					}
 				}
 
@@ -799,11 +802,12 @@ namespace thunder_ns{
 			}
 			// std::cout<<"YAML_DH letto"<<std::endl;
 			// std::cout<<"\nparam REG \n"<<param_REG<<std::endl;
-		} catch (const YAML::Exception& e) {
+		} catch (const std::exception& e) {
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+			return args["par_REG"];
 		}
 		args["par_REG"] = param_REG;
-		if (Dl_order > 0) args["par_Dl"] = param_Dl;
+		if (load_Dl) assign_par("par_Dl", param_Dl);
 		if (update_DYN) update_inertial_DYN();
 		return param_REG;
 	}
-- 
2.43.0


From cd0904fb2d1faf7dd6a364c34a10e542de7a3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 05/29] fix: reject configurations that do not match the
 declared robot

Parsing errors were printed and then ignored, leaving a half-initialised
robot; vectors shorter or longer than num_joints and the orders require were
read or written out of bounds. Construction now fails with an error. A
missing gravity or friction section no longer leaves an empty one in the
saved configuration.
---
 src/thunder/src/robot.cpp | 66 +++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 8a25b70..1dc68dc 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -16,11 +16,13 @@ namespace thunder_ns{
 
 	Robot::Robot(const std::string config_file){
 		load_config(config_file); 	// load config and parameters from yaml file
+		if (!valid) throw std::runtime_error("Invalid configuration file: " + config_file);
 		initVarsFuns();				// initialize variables
 	}
 
 	Robot::Robot(const YAML::Node yaml){
 		load_config(yaml); 		// load config and parameters from yaml file
+		if (!valid) throw std::runtime_error("Invalid configuration");
 		initVarsFuns();			// initialize variables
 	}
 
@@ -31,14 +33,17 @@ namespace thunder_ns{
 			config_yaml = YAML::LoadFile(config_file);
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while loading YAML: " << e.what() << std::endl;
+			valid = 0;
+			return config_yaml;
 		}
-		parse_config();
+		valid = parse_config();
 		return config_yaml;
 	}
 	int Robot::load_config(YAML::Node yaml){
 		// load yaml
 		config_yaml = yaml;
-		if (parse_config()) return 1; else return 0;
+		valid = parse_config();
+		return valid;
 	}
 
 	int Robot::parse_config() {
@@ -47,6 +52,10 @@ namespace thunder_ns{
 		int STD_PAR_LINK = Robot::STD_PAR_LINK;
 		FrameOffset Base_to_L0;
 		FrameOffset Ln_to_EE;
+		// check that a vector has the expected number of elements
+		auto check_size = [](const std::string& name, int size, int expected) {
+			if (size != expected) throw std::runtime_error("'" + name + "' should have " + std::to_string(expected) + " elements, it has " + std::to_string(size) + ".");
+		};
 
 		// ----- Parsing YAML File ----- //
 		try {
@@ -56,6 +65,13 @@ namespace thunder_ns{
 			nj = config_file["num_joints"].as<int>();
 			this->numJoints = nj;
 			this->jointsType = config_file["type_joints"].as<std::vector<std::string>>();
+			if (nj < 1) throw std::runtime_error("'num_joints' should be positive.");
+			if ((int)this->jointsType.size() != nj) {
+				throw std::runtime_error("Mismatch between 'num_joints' and the size of 'type_joints' vector.");
+			}
+			for (const std::string& type : this->jointsType) {
+				if (type!="R" && type!="P" && type!="R_SEA" && type!="P_SEA") throw std::runtime_error("Unknown joint type '" + type + "'.");
+			}
 
 			// Friction model order (defaults to 0)
 			this->Dl_order = config_file["Dl_order"] ? config_file["Dl_order"].as<int>() : 0;
@@ -72,6 +88,7 @@ namespace thunder_ns{
 				this->D_order = elastic_node["D_order"].as<int>();
 				this->Dm_order = elastic_node["Dm_order"].as<int>();
 			}
+			if (this->Dl_order<0 || this->K_order<0 || this->D_order<0 || this->Dm_order<0) throw std::runtime_error("Orders cannot be negative.");
 			// identify elastic joints
 			this->numElasticJoints = 0;
 			this->isElasticJoint.resize(this->numJoints);
@@ -88,6 +105,7 @@ namespace thunder_ns{
 			YAML::Node kinematics = config_file["kinematics"];
 			std::vector<double> dh_vect = kinematics["DH"].as<std::vector<double>>();
 			int dh_size = dh_vect.size();
+			check_size("DH", dh_size, 4*nj);
 			casadi::SX DHtable_numerical(dh_size, 1);
 			for (int i = 0; i < dh_size; i++) {
 				DHtable_numerical(i) = dh_vect[i];
@@ -97,6 +115,7 @@ namespace thunder_ns{
 			std::vector<double> gravity_vect = {0.0, 0.0, 0.0}; // default no gravity
 			if (config_file["gravity"]){
 				gravity_vect = config_file["gravity"]["value"].as<std::vector<double>>();
+				check_size("gravity value", gravity_vect.size(), 3);
 			}
 
 			// Frame Offsets
@@ -108,6 +127,10 @@ namespace thunder_ns{
 			YAML::Node frame_ee = config_file["Ln_to_EE"];
 			Ln_to_EE.set_translation(frame_ee["tr"].as<std::vector<double>>());
 			Ln_to_EE.set_ypr(frame_ee["ypr"].as<std::vector<double>>());
+			check_size("Base_to_L0 tr", Base_to_L0.translation.size(), 3);
+			check_size("Base_to_L0 ypr", Base_to_L0.ypr.size(), 3);
+			check_size("Ln_to_EE tr", Ln_to_EE.translation.size(), 3);
+			check_size("Ln_to_EE ypr", Ln_to_EE.ypr.size(), 3);
 
 
 			// ---- Symbolic Selectivity Vectors ---- //
@@ -118,6 +141,7 @@ namespace thunder_ns{
 			YAML::Node dynamics = config_file["dynamics"];
 			int link_index = 0;
 			for (const auto& node : dynamics) {
+				if (link_index==nj) break; // break if more links defined
 				YAML::Node inertial = node.second["inertial"];
 				std::vector<int> link_symb;
 				if (inertial["symb"]) {
@@ -125,6 +149,7 @@ namespace thunder_ns{
 				} else {
 					link_symb.assign(STD_PAR_LINK, 0); // Default to non-symbolic
 				}
+				check_size("inertial symb", link_symb.size(), STD_PAR_LINK);
 				std::copy(link_symb.begin(), link_symb.end(), par_DYN_symb.begin() + link_index * STD_PAR_LINK);
 				link_index++;
 			}
@@ -135,10 +160,13 @@ namespace thunder_ns{
 				par_Dl_symb.resize(this->Dl_order * nj);
 				link_index = 0;
 				for (const auto& node : dynamics) {
+					if (link_index==nj) break; // break if more links defined
 					YAML::Node friction = node.second["friction"];
 					std::vector<int> fric_symb;
-					if (friction["symb"]) {
+					if (friction && friction["symb"]) {
 						fric_symb = friction["symb"].as<std::vector<int>>();
+						if ((int)fric_symb.size() > this->Dl_order) fric_symb.resize(this->Dl_order);
+						check_size("friction symb", fric_symb.size(), this->Dl_order);
 					} else {
 						fric_symb.assign(this->Dl_order, 0);
 					}
@@ -159,7 +187,8 @@ namespace thunder_ns{
 						std::vector<int> vec;
 						if (node.second[key]){
 							vec = node.second[key].as<std::vector<int>>();
-							vec.resize(order);
+							if ((int)vec.size() > order) vec.resize(order);
+							check_size(key, vec.size(), order);
 						} else vec.assign(order, 0);
 						return vec;
 					};
@@ -178,6 +207,7 @@ namespace thunder_ns{
 
 					i++;
 				}
+				if (i < numElasticJoints) throw std::runtime_error("Mismatch between the elastic joints and the joints in 'elastic'.");
 			}
 
 			// ---- Populate the Symbolic Selectivity Map (`symb`) ---- //
@@ -197,15 +227,16 @@ namespace thunder_ns{
 			if (frame_ee["symb"]) this->symb["par_Ln2EE"] = frame_ee["symb"].as<std::vector<int>>();
 			else this->symb["par_Ln2EE"].assign(6, 0);
 
-			if (config_file["gravity"]["symb"]) this->symb["par_gravity"] = config_file["gravity"]["symb"].as<std::vector<int>>();
+			if (config_file["gravity"] && config_file["gravity"]["symb"]) this->symb["par_gravity"] = config_file["gravity"]["symb"].as<std::vector<int>>();
 			else this->symb["par_gravity"].assign(3, 0);
 
 
 			// ---- Finalize Robot State and CasADi Model ---- //
-			if (this->jointsType.size() != this->numJoints) {
-				throw std::runtime_error("Mismatch between 'num_joints' and the size of 'type_joints' vector.");
-			}
-			
+			check_size("kinematics symb", this->symb["par_DHtable"].size(), 4*nj);
+			check_size("Base_to_L0 symb", this->symb["par_world2L0"].size(), 6);
+			check_size("Ln_to_EE symb", this->symb["par_Ln2EE"].size(), 6);
+			check_size("gravity symb", this->symb["par_gravity"].size(), 3);
+
 			// Define symbolic variables for the model
 			this->model = {
 				{"par_DHtable", casadi::SX::sym("DHtable", this->numJoints * 4)},
@@ -234,7 +265,7 @@ namespace thunder_ns{
 				{"par_gravity", gravity_numerical}
 			};
 
-		} catch (const YAML::Exception& e) {
+		} catch (const std::exception& e) {
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
 			return 0; // Indicate failure
 		}
@@ -706,12 +737,13 @@ namespace thunder_ns{
 				if (node.second["friction"]){
 					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
 					for (int j=0; j<Dl_order; j++){
-						param_Dl(Dl_order*i + j) = Dl[j];
+						param_Dl(Dl_order*i + j) = Dl.at(j);
 					}
 				}
 
 				i++;
 			}
+			if (dynamics && i<numJoints) throw std::runtime_error("Mismatch between 'num_joints' and the number of links in 'dynamics'.");
 
 			// ----- parsing yaml elastic ----- //
 			if ((ELASTIC) && (config_file["elastic"])){
@@ -724,28 +756,30 @@ namespace thunder_ns{
 					// stiffness
 					if (K_order > 0){
 						std::vector<double> K = node.second["K"].as<std::vector<double>>();
-						for (int j=0; j<K_order; j++) param_K(K_order*i+j) = K[j];
+						for (int j=0; j<K_order; j++) param_K(K_order*i+j) = K.at(j);
 					}
 					// coupling friction
 					if (D_order > 0){
 						std::vector<double> D = node.second["D"].as<std::vector<double>>();
-						for (int j=0; j<D_order; j++) param_D(D_order*i + j) = D[j];
+						for (int j=0; j<D_order; j++) param_D(D_order*i + j) = D.at(j);
 					}
 					// motor friction
 					if (Dm_order > 0){
 						std::vector<double> Dm = node.second["Dm"].as<std::vector<double>>();
-						for (int j=0; j<Dm_order; j++) param_Dm(Dm_order*i + j) = Dm[j];
+						for (int j=0; j<Dm_order; j++) param_Dm(Dm_order*i + j) = Dm.at(j);
 					}
 					// motor inertia
 					param_Mm(i) = node.second["Mm"].as<double>();
 
 					i++;
 				}
+				if (i<numElasticJoints) throw std::runtime_error("Mismatch between the elastic joints and the joints in 'elastic'.");
 				// std::cout<<"YAML_DH letto"<<std::endl;
 				// std::cout<<"\nparam DYN \n"<<param_DYN<<std::endl;
 			}
-		} catch (const YAML::Exception& e) {
+		} catch (const std::exception& e) {
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+			return 0;
 		}
 		if (model["par_DYN"].size1() == STD_PAR_LINK*numJoints) par_DYN_conf = param_DYN;
 		assign_par("par_DYN", param_DYN);
@@ -1173,7 +1207,7 @@ namespace thunder_ns{
 		Robot robot(file);
 		robot.robotName = robot_name;
 		// --- load parameters --- //
-		robot.load_conf_par(file);
+		if (!robot.load_conf_par(file)) throw std::runtime_error("Invalid parameters in configuration file: " + file);
 		cout<<"Configuration loaded!"<<endl;
 		// --- compute functions --- //
 		if (compute){
-- 
2.43.0


From 2962e393a4a278067933467045442c09f0895cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 06/29] fix: a refused set_par_DYN or set_par_REG changes
 nothing in the generated class

The conversion to the other parametrization ran even when the dimension was
wrong, overwriting parameters that had been set on their own.
---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 458e120..de44854 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -190,21 +190,21 @@ void thunder_robot::update_inertial_REG(){
 void thunder_robot::set_par_DYN(const Eigen::VectorXd& par_, bool update_REG){
 	if(par_.size() == par_DYN.size()){
 		par_DYN = par_;
+		// conversion from DYN to REG
+		if (update_REG)	update_inertial_REG();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_REG)	update_inertial_REG();
 }
 
 void thunder_robot::set_par_REG(const Eigen::VectorXd& par_, bool update_DYN){
 	if(par_.size() == par_REG.size()){
 		par_REG = par_;
+		// conversion from REG to DYN
+		if (update_DYN)	update_inertial_DYN();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_DYN)	update_inertial_DYN();
 }
 
 void thunder_robot::set_par_K(const Eigen::VectorXd& par_){
-- 
2.43.0


From e074a4c15c7e33bc4ca0de3eb214e6775edeb003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 07/29] fix: generated set_par_DHtable accepts the table as a
 matrix

The argument is a matrix and a n x 4 table passes the size check, but
assigning it to the parameter vector aborts.
---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index de44854..a6b1157 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -249,7 +249,9 @@ void thunder_robot::set_par_Dl(const Eigen::VectorXd& par_){
 
 void thunder_robot::set_par_DHtable(const Eigen::MatrixXd& par_){
 	if(par_.size() == par_DHtable.size()){
-		par_DHtable = par_;
+		// parameters in row order, also from a table with one row for each joint
+		const Eigen::MatrixXd par_t = par_.transpose();
+		par_DHtable = Eigen::Map<const Eigen::VectorXd>(par_t.data(), par_t.size());
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-- 
2.43.0


From 050726c5a0f5ef90d5fa4ba23923286ff34c4bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 08/29] fix: generated load_par_REG restores the link friction
 that save_par_REG writes

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index a6b1157..921a620 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -351,6 +351,13 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 
 				par_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass,m_cmx,m_cmy,m_cmz,xx,xy,xz,yy,yz,zz;
 				
+				// - link friction - //
+				if (Dl_order>0 && node.second["friction"]){
+					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
+					for (int j=0; j<Dl_order && j<(int)Dl.size(); j++){
+						par_Dl(Dl_order*i + j) = Dl[j];
+					}
+				}
 				i++;
 			}
 			if (update_DYN) update_inertial_DYN();
-- 
2.43.0


From e40923a3810d5ddd8d718a6aae6d8e6af6c4d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 09/29] fix: generated functions receive only the symbolic
 parameters they depend on

With partially symbolic dynamic, friction or elastic parameters the compiled
function takes the symbolic entries, but the class passed the whole vector,
so that wrong entries were used.
---
 src/thunder/src/utils.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 09c3c8a..56188c4 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -218,12 +218,29 @@ namespace thunder_ns{
 				functions_string.append("\tthread_local long long p3[" + fun_name_gen + "_fun_SZ_IW];\n");
 				functions_string.append("\tthread_local double p4[" + fun_name_gen + "_fun_SZ_W];\n");
 				// inputs
-				if (fun_args.size() == 0){
+				std::vector<std::string> fun_inputs = fun_args;
+				for (std::string& arg : fun_inputs){
+					// these parameters are stored completely into the class, but functions depend only on the symbolic ones
+					if (arg!="par_DYN" && arg!="par_Dl" && arg!="par_K" && arg!="par_D" && arg!="par_Dm" && arg!="par_Mm") continue;
+					const std::vector<int>& symb_flag = robot.symb[arg];
+					std::string symb_index = "";
+					int n_symb = 0;
+					for (int j=0; j<symb_flag.size(); j++){
+						if (!symb_flag[j]) continue;
+						symb_index += (n_symb>0 ? ", " : "") + arg + "(" + to_string(j) + ")";
+						n_symb++;
+					}
+					if (n_symb == symb_flag.size()) continue;
+					functions_string.append("\tEigen::VectorXd " + arg + "_symb(" + to_string(n_symb) + ");\n");
+					functions_string.append("\t" + arg + "_symb << " + symb_index + ";\n");
+					arg = arg + "_symb";
+				}
+				if (fun_inputs.size() == 0){
 					functions_string.append("\tconst double** input_ = nullptr;\n");
 				} else {
-					functions_string.append("\tconst double* input_[] = {" + fun_args[0]+".data()");
-					for (int j=1; j<fun_args.size(); j++){
-						functions_string.append(", " + fun_args[j]+".data()");
+					functions_string.append("\tconst double* input_[] = {" + fun_inputs[0]+".data()");
+					for (int j=1; j<fun_inputs.size(); j++){
+						functions_string.append(", " + fun_inputs[j]+".data()");
 					}
 					functions_string.append("};\n");
 				}
-- 
2.43.0


From 9a939dde674adcdd4f100b9d3aed3b7b8937f81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 10/29] fix: genInertial_files reads friction from its section
 and at most num_joints links

---
 src/thunder/src/genYaml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/thunder/src/genYaml.cpp b/src/thunder/src/genYaml.cpp
index 093daa6..9b8d6b6 100644
--- a/src/thunder/src/genYaml.cpp
+++ b/src/thunder/src/genYaml.cpp
@@ -52,6 +52,7 @@ namespace thunder_ns{
 			int link_index = 0;
 			for (const auto& node : dynamics) {
 
+				if (link_index==num_joints) break;
 				YAML::Node inertial = node.second["inertial"];
 				LinkProp properties;
 				std::string linkName = node.first.as<std::string>();
@@ -75,7 +76,7 @@ namespace thunder_ns{
 				if (Dl_order){
 					properties.Dl.resize(Dl_order);
 					YAML::Node friction = node.second["friction"];
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+					std::vector<double> Dl = friction["Dl"].as<std::vector<double>>();
 					properties.Dl = Dl;
 					// std::cout<<"Dl_read: " << Dl << std::endl;
 					// for (int j=0; j<Dl_order; j++){
-- 
2.43.0


From 4b64b507871609328d886af8f01098335cd487f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 11/29] fix: user-defined example does not take its constant as
 an argument

q0 is read from the configuration, it is not an input of the class, so the
generated library did not compile.
---
 src/thunder/src/userDefined.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thunder/src/userDefined.cpp b/src/thunder/src/userDefined.cpp
index f8cd6f6..7bb5348 100644
--- a/src/thunder/src/userDefined.cpp
+++ b/src/thunder/src/userDefined.cpp
@@ -41,7 +41,7 @@ namespace thunder_ns{
 			casadi::SX q0_dist = casadi::SX::norm_2(q-q0);
 
 			// --- save function into robot --- //
-			std::vector<std::string> arg_list = robot.obtain_symb_parameters({"q", "q0"}, {});
+			std::vector<std::string> arg_list = robot.obtain_symb_parameters({"q"}, {});
 			if (!robot.add_function("q0_dist", q0_dist, arg_list, "distance from q0")) return 0;
 			// when you create the library, the function "get_q_dist()" into thunder_<robot> will return the distance from q0
 		}
-- 
2.43.0


From 002cd7cd17918fe685419e2f62af81383c314ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 12/29] fix: Robot::save_par without a list saves all the
 parameters

It wrote an empty file, while load_par without a list reads everything back.
---
 src/thunder/src/robot.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 1dc68dc..a2aa2d3 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -964,6 +964,13 @@ namespace thunder_ns{
 
 			YAML::Node yamlFile;
 
+			// by default save all the parameters
+			if (par_list.size() == 0){
+				for (const auto& arg : args){
+					if (arg.first.rfind("par_", 0) == 0) par_list.push_back(arg.first);
+				}
+			}
+
 			for (auto& par : par_list){
 				// YAML::Node par_node;
 				// par_node[par] = args[par];
-- 
2.43.0


From 5332c01ab301146a0c44565770dd172f3b1c0abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 13/29] fix: Robot::load_par refuses files that do not match
 the parameters

Unknown names and wrong dimensions threw out of the function after part of
the parameters had been changed.
---
 src/thunder/src/robot.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index a2aa2d3..d53d6ae 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -849,25 +849,25 @@ namespace thunder_ns{
 	int Robot::load_par(std::string par_file, std::vector<std::string> par_list){
 		try {
 			// load yaml
-			YAML::Node yamlFile = YAML::LoadFile(par_file);
+			const YAML::Node yamlFile = YAML::LoadFile(par_file);
 			if (par_list.size() == 0){
-				for (const auto& node : yamlFile){
-					std::vector<double> par_vect = node.second.as<std::vector<double>>();
-					casadi::SX& par = args[node.first.as<std::string>()];
-					for (int i=0; i<par_vect.size(); i++){
-						par(i) = par_vect[i];
-					}
+				for (const auto& node : yamlFile) par_list.push_back(node.first.as<std::string>());
+			}
+			// parameters are changed only if all of them can be loaded
+			std::map<std::string, casadi::SX> loaded;
+			for (std::string par_str : par_list){
+				std::vector<double> par_vect = yamlFile[par_str].as<std::vector<double>>();
+				if (!args.count(par_str) || args[par_str].size1() != par_vect.size()){
+					throw std::runtime_error("invalid name or dimension of " + par_str);
 				}
-			} else {
-				for (std::string par_str : par_list){
-					std::vector<double> par_vect = yamlFile[par_str].as<std::vector<double>>();
-					casadi::SX& par = args[par_str];
-					for (int i=0; i<par_vect.size(); i++){
-						par(i) = par_vect[i];
-					}
+				casadi::SX par(par_vect.size(), 1);
+				for (int i=0; i<par_vect.size(); i++){
+					par(i) = par_vect[i];
 				}
+				loaded[par_str] = par;
 			}
-		} catch (const YAML::Exception& e) {
+			for (const auto& par : loaded) args[par.first] = par.second;
+		} catch (const std::exception& e) {
 			std::cerr << "Error while loading parameters: " << e.what() << std::endl;
 			return 0;
 		}
-- 
2.43.0


From 276ead6cb27687c269eed47cfc3c2be4ab174f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 14/29] fix: Robot::set_arg refuses values of the wrong
 dimension

The wrong size was stored, and every later evaluation failed.
---
 src/thunder/src/robot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index d53d6ae..cdb0482 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -423,6 +423,10 @@ namespace thunder_ns{
 
 	int Robot::set_arg(std::string name, Eigen::VectorXd value){
 		int sz = value.size();
+		if (args.count(name) && args[name].size1() != sz){
+			std::cout<<"in set_arg: invalid dimensions of arguments\n";
+			return 0;
+		}
 		casadi::SX& arg = args[name];
 		arg = casadi::SX::zeros(sz);
 		for (int i=0; i<sz; i++){
-- 
2.43.0


From c16972777571f76b12f33cda06959ce2311aee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 15/29] fix: add_function with resized parameters or arguments
 without symbolic flags

After the robot is finalised the flags were applied to the already resized
parameter, and arguments without flags (par_REG, user variables) were read
out of bounds and then emptied by update_symb_parameters.
---
 src/thunder/src/robot.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index cdb0482..005da59 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1080,9 +1080,12 @@ namespace thunder_ns{
 				// int sz_original = args[arg].size();
 				// std::cout << "fun: " << f_name << std::endl;
 				// std::cout << "arg: " << arg << std::endl;
-				std::vector<int>& symb_flag = symb[arg];
+				std::vector<int> symb_flag;
+				if (symb.count(arg)) symb_flag = symb[arg];
 				std::vector<casadi::SX> par_symb;
 				casadi::SX& par_model = model[arg];
+				// without a flag for each element (no flags, or parameter already resized) everything is symbolic
+				if (symb_flag.size() != par_model.size1()) symb_flag.assign(par_model.size1(), 1);
 				// cout << "model[arg]: " << par_model << endl;
 				// cout << "symb_flag: " << symb_flag << endl;
 				int sz_original = par_model.size().first;
@@ -1176,8 +1179,10 @@ namespace thunder_ns{
 		std::vector<std::string> arg_list = par_sure;
 		for (auto& par : par_possible){
 			bool is_symb = false;
-			for (int v : symb[par]){
-				if (v) is_symb = true;
+			if (symb.count(par)){
+				for (int v : symb[par]){
+					if (v) is_symb = true;
+				}
 			}
 			if (is_symb){
 				arg_list.push_back(par);
-- 
2.43.0


From 25350db3204352dcce89d550d702892075c0c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 16/29] fix: generated load_conf refuses files that do not
 match the robot

---
 .../thunder_robot_template/thunder_robot.cpp  | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 921a620..5154bfa 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -369,12 +369,15 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 }
 
 void thunder_robot::load_conf(std::string file_path, bool update_REG){
+	// check that a vector has the expected number of elements
+	auto check_size = [](const std::string& name, int size, int expected) {
+		if (size != expected) throw std::runtime_error("'" + name + "' should have " + std::to_string(expected) + " elements, it has " + std::to_string(size) + ".");
+	};
 	try {
 		YAML::Node config = YAML::LoadFile(file_path);
 		int index;
 		// --- Parse kinematics --- //
 		if (config["kinematics"]){
-			par_DHtable.resize(n_joints*4);
 			// Denavit-Hartenberg
 			YAML::Node kinematics = config["kinematics"];
 			std::vector<double> dh_vect = kinematics["DH"].as<std::vector<double>>();
@@ -385,6 +388,9 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				// no parameters here
 			}
 			int sz = dh_vect.size();
+			check_size("DH", sz, n_joints*4);
+			check_size("kinematics symb", DHtable_symb.size(), n_joints*4);
+			par_DHtable.resize(n_joints*4);
 			// par_DHtable.resize(sz);
 			// for (int i=0; i<sz; i++){
 			// 		par_DHtable(i) = dh_vect[i];
@@ -402,7 +408,6 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		}
 		// - Frame Offsets - //
 		if (config["Base_to_L0"]){
-			par_world2L0.resize(6);
 			YAML::Node frame_base = config["Base_to_L0"];
 			if (frame_base["symb"]){
 				world2L0_symb = frame_base["symb"].as<std::vector<int>>();
@@ -414,6 +419,10 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			// std::cout << "sz: " << sz << std::endl;
 			std::vector<double> tr = frame_base["tr"].as<std::vector<double>>();
 			std::vector<double> ypr = frame_base["ypr"].as<std::vector<double>>();
+			check_size("Base_to_L0 tr", tr.size(), 3);
+			check_size("Base_to_L0 ypr", ypr.size(), 3);
+			check_size("Base_to_L0 symb", world2L0_symb.size(), 6);
+			par_world2L0.resize(6);
 			// Eigen::VectorXd world2L0_new(sz);
 			int sz1=0, sz2=0;
 			for (int i=0; i<3; i++){
@@ -433,7 +442,6 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		}
 
 		if (config["Ln_to_EE"]){
-			par_Ln2EE.resize(6);
 			YAML::Node frame_ee = config["Ln_to_EE"];
 			if (frame_ee["symb"]){
 				Ln2EE_symb = frame_ee["symb"].as<std::vector<int>>();
@@ -445,6 +453,10 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			// std::cout << "sz: " << sz << std::endl;
 			std::vector<double> tr = frame_ee["tr"].as<std::vector<double>>();
 			std::vector<double> ypr = frame_ee["ypr"].as<std::vector<double>>();
+			check_size("Ln_to_EE tr", tr.size(), 3);
+			check_size("Ln_to_EE ypr", ypr.size(), 3);
+			check_size("Ln_to_EE symb", Ln2EE_symb.size(), 6);
+			par_Ln2EE.resize(6);
 			// Eigen::VectorXd Ln2EE_new(sz);
 			int sz1=0, sz2=0;
 			for (int i=0; i<3; i++){
@@ -490,7 +502,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				if (node.second["friction"]){
 					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
 					for (int j=0; j<Dl_order; j++){
-						par_Dl(Dl_order*index + j) = Dl[j];
+						par_Dl(Dl_order*index + j) = Dl.at(j);
 					}
 				}
 				index++;
@@ -499,7 +511,6 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		}
 		// - Gravity - //
 		if (config["gravity"]){
-			par_gravity.resize(3);
 			YAML::Node gravity_node = config["gravity"];
 			if (gravity_node["symb"]){
 				gravity_symb = gravity_node["symb"].as<std::vector<int>>();
@@ -509,6 +520,9 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			// int sz = 0;
 			// for (int v : gravity_symb) if (v) sz++;
 			std::vector<double> grav = gravity_node["value"].as<std::vector<double>>();
+			check_size("gravity value", grav.size(), 3);
+			check_size("gravity symb", gravity_symb.size(), 3);
+			par_gravity.resize(3);
 			// Eigen::VectorXd gravity_new(sz);
 			int sz1 = 0;
 			for (int i=0; i<3; i++){
@@ -531,19 +545,19 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				// stiffness
 				for (int j=0; j<K_order; j++){
 					std::vector<double> K = node.second["K"].as<std::vector<double>>();
-					par_K(K_order*index+j) = K[j];
+					par_K(K_order*index+j) = K.at(j);
 					// std::cout<<"K_"<<j<<": "<<K[j] << std::endl;
 				}
 				// coupling friction
 				for (int j=0; j<D_order; j++){
 					std::vector<double> D = node.second["D"].as<std::vector<double>>();
-					par_D(D_order*index + j) = D[j];
+					par_D(D_order*index + j) = D.at(j);
 					// std::cout<<"D_"<<j<<": "<<D[j] << std::endl;
 				}
 				// motor friction
 				for (int j=0; j<Dm_order; j++){
 					std::vector<double> Dm = node.second["Dm"].as<std::vector<double>>();
-					par_Dm(Dm_order*index + j) = Dm[j];
+					par_Dm(Dm_order*index + j) = Dm.at(j);
 					// std::cout<<"Dm_"<<j<<": "<<Dm[j] << std::endl;
 				}
 				// motor Inertia
@@ -552,7 +566,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				index++;
 			}
 		}
-	} catch (const YAML::Exception& e) {
+	} catch (const std::exception& e) {
 		std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
 	}
 }
-- 
2.43.0


From 21d6da0b34c4c45833afedfbde16a771e0ed4d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 17/29] fix: conversion program stops when a link is missing or
 cannot be read

---
 src/genYAML/main_YAML.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/genYAML/main_YAML.cpp b/src/genYAML/main_YAML.cpp
index 762df04..0e2176a 100644
--- a/src/genYAML/main_YAML.cpp
+++ b/src/genYAML/main_YAML.cpp
@@ -140,7 +140,7 @@ int main(){
                 xyzStream >> properties.xyz[0] >> properties.xyz[1] >> properties.xyz[2];
             } else {
                 std::cerr << "Missing 'xyz' in the 'origin' node." << std::endl;
-                continue;
+                return 1;
             }
 
             if (origin["rpy"]) {
@@ -149,7 +149,7 @@ int main(){
                 rpyStream >> properties.rpy[0] >> properties.rpy[1] >> properties.rpy[2];
             } else {
                 std::cerr << "Missing 'rpy' in the 'origin' node." << std::endl;
-                continue;
+                return 1;
             }
 
             links_prop.push_back(properties);
@@ -157,6 +157,12 @@ int main(){
         
     } catch (const YAML::Exception& e) {
         std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+        return 1;
+    }
+
+    if (links_prop.size() < (size_t)numTransform + 1){
+        std::cerr << "Error: " << numTransform + 1 << " links needed (base included), found " << links_prop.size() << std::endl;
+        return 1;
     }
 
     //-----------------------Convert inertial parameters from URDF to DH----------------------------//
-- 
2.43.0


From 38bb8bbe68a9a2bedf5c6b66e5f7bca5c8a6751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 18/29] fix: conversion program does not perturb the
 unperturbed regressor parameters

---
 src/genYAML/main_YAML.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/genYAML/main_YAML.cpp b/src/genYAML/main_YAML.cpp
index 0e2176a..27f9ab4 100644
--- a/src/genYAML/main_YAML.cpp
+++ b/src/genYAML/main_YAML.cpp
@@ -286,6 +286,12 @@ int main(){
 
 void perturbateLinkProp(LinkProp original, LinkProp &perturbate, double percent){
 
+    // no perturbation: a normal distribution needs a positive deviation
+    if (percent <= 0){
+        perturbate = original;
+        return;
+    }
+
     std::random_device rd;
     std::mt19937 gen(rd());
     std::normal_distribution<double> dist(0.0, percent/100);
-- 
2.43.0


From b1a2796c5003ecefa9df6e888e4dc46a456ce7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 19/29] fix: add_function that fails leaves the model as it was

---
 src/thunder/src/robot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 005da59..cf2f935 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1066,10 +1066,6 @@ namespace thunder_ns{
 			// key already exists
 			return 0;
 		} else {
-			model[f_name] = expr;
-			fun_args[f_name] = f_args;
-			fun_descr[f_name] = descr;
-
 			casadi::SXVector inputs(f_args.size());
 			// for (const auto& arg : f_args) {
 			// 	inputs.push_back(model[arg]);
@@ -1113,6 +1109,10 @@ namespace thunder_ns{
 
 			casadi::Function fun(robotName+"_"+f_name+"_fun", inputs, {densify(expr)});
 			// cout<<"fun: "<<fun<<endl;
+			// stored only when the function has been created: if it is not possible nothing changes
+			model[f_name] = expr;
+			fun_args[f_name] = f_args;
+			fun_descr[f_name] = descr;
 			casadi_fun[f_name] = fun;
 		}
 
-- 
2.43.0


From f3865ed204bd218a2bb7782647963e6a881c35f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 20/29] fix: add_function refuses arguments that the model does
 not have

---
 src/thunder/src/robot.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index cf2f935..059f6c0 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1066,6 +1066,13 @@ namespace thunder_ns{
 			// key already exists
 			return 0;
 		} else {
+			for (const auto& arg : f_args) {
+				if (!model.count(arg)){
+					std::cerr<<"function "<<f_name<<": unknown argument "<<arg<<std::endl;
+					return 0;
+				}
+			}
+
 			casadi::SXVector inputs(f_args.size());
 			// for (const auto& arg : f_args) {
 			// 	inputs.push_back(model[arg]);
-- 
2.43.0


From e48c8e0dfef93f69caf2d8c585ad3432199f5921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 21/29] fix: user-defined example refuses a q0 of the wrong
 size

---
 src/thunder/src/userDefined.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thunder/src/userDefined.cpp b/src/thunder/src/userDefined.cpp
index 7bb5348..b0cfdb5 100644
--- a/src/thunder/src/userDefined.cpp
+++ b/src/thunder/src/userDefined.cpp
@@ -32,6 +32,7 @@ namespace thunder_ns{
 		if (robot.config_yaml["q0"]){
 			// --- take q0 from yaml --- //
 			std::vector<double> q0_vect = robot.config_yaml["q0"].as<std::vector<double>>();
+			if (q0_vect.size() != numJoints) return 0;
 			casadi::SX q0(numJoints,1);
 			for (int i=0; i<numJoints; i++){
 				q0(i) = q0_vect[i];
-- 
2.43.0


From 3d9a834bea3d31fee2975723ebc6e020f7b5ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 22/29] fix: symbolic parameters keep as many elements as their
 dimension says

---
 src/thunder/src/robot.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 059f6c0..3b1c012 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1205,17 +1205,21 @@ namespace thunder_ns{
 			std::string par_name = par_symb.first;
 			casadi::SX& par_model = model[par_name];
 			casadi::SX& par_arg = args[par_name];
-			// casadi::SX new_par(sz_original,1);
-			int sz = 0;
+			// casadi::SX::resize() does not drop the elements, so the vectors are built again
+			casadi::SXVector model_symb, arg_symb;
 			for (int i=0; i<sz_original; i++){
 				if (par_symb.second[i]){
-					par_model(sz) = par_model(i);
-					par_arg(sz) = par_arg(i);
-					sz++;
+					model_symb.push_back(par_model(i));
+					arg_symb.push_back(par_arg(i));
 				}
 			}
-			par_model.resize(sz,1);
-			par_arg.resize(sz,1);
+			int sz = model_symb.size();
+			par_model = casadi::SX::zeros(sz,1);
+			par_arg = casadi::SX::zeros(sz,1);
+			for (int i=0; i<sz; i++){
+				par_model(i) = model_symb[i];
+				par_arg(i) = arg_symb[i];
+			}
 			// cout << "par_model: " << par_model << endl;
 			// cout << "par_arg: " << par_arg << endl;
 		}
-- 
2.43.0


From 815ed950a866ff0e567fe9158b4740f8cea32885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:10 +0000
Subject: [PATCH 23/29] fix: genYAML refuses an origin whose xyz or rpy is not
 three numbers instead of taking zeros

---
 src/genYAML/main_YAML.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/genYAML/main_YAML.cpp b/src/genYAML/main_YAML.cpp
index 27f9ab4..082f580 100644
--- a/src/genYAML/main_YAML.cpp
+++ b/src/genYAML/main_YAML.cpp
@@ -137,7 +137,10 @@ int main(){
             if (origin["xyz"]) {
                 xyzStr = origin["xyz"].as<std::string>();
                 std::istringstream xyzStream(xyzStr);            
-                xyzStream >> properties.xyz[0] >> properties.xyz[1] >> properties.xyz[2];
+                if (!(xyzStream >> properties.xyz[0] >> properties.xyz[1] >> properties.xyz[2])) {
+                    std::cerr << "Invalid 'xyz' in the 'origin' node: 3 numbers needed." << std::endl;
+                    return 1;
+                }
             } else {
                 std::cerr << "Missing 'xyz' in the 'origin' node." << std::endl;
                 return 1;
@@ -146,7 +149,10 @@ int main(){
             if (origin["rpy"]) {
                 rpyStr = origin["rpy"].as<std::string>();
                 std::istringstream rpyStream(rpyStr);            
-                rpyStream >> properties.rpy[0] >> properties.rpy[1] >> properties.rpy[2];
+                if (!(rpyStream >> properties.rpy[0] >> properties.rpy[1] >> properties.rpy[2])) {
+                    std::cerr << "Invalid 'rpy' in the 'origin' node: 3 numbers needed." << std::endl;
+                    return 1;
+                }
             } else {
                 std::cerr << "Missing 'rpy' in the 'origin' node." << std::endl;
                 return 1;
-- 
2.43.0


From 4e2adbdf09056596f65a6fc3f186a36525d5cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:54 +0000
Subject: [PATCH 24/29] fix: generated code and bindings accept any description
 of a function (quotes, backslashes, several lines)

---
 src/thunder/src/utils.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 56188c4..e8f599e 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -1,4 +1,5 @@
 #include "utils.h"
+#include <algorithm>
 #include <fstream>
 #include <sstream>
 #include <iostream>
@@ -103,6 +104,25 @@ namespace thunder_ns{
 		return I;
 	}
 
+	// text of a description in a comment of one line
+	static string comment_text(string text){
+		std::replace(text.begin(), text.end(), '\n', ' ');
+		std::replace(text.begin(), text.end(), '\r', ' ');
+		return text;
+	}
+
+	// text of a description in a string literal
+	static string literal_text(const string& text){
+		string literal;
+		for (char c : text){
+			if (c == '\n') literal += "\\n";
+			else if (c == '\r') literal += "\\r";
+			else if (c == '"' || c == '\\') literal += string("\\") + c;
+			else literal += c;
+		}
+		return literal;
+	}
+
 	int change_to_robot(const string from_robot, const string to_robot, Robot& robot, const string file_path_h, const string file_path_cpp, const bool gen_python){
 		
 		// - get parameters from robot - //
@@ -162,7 +182,7 @@ namespace thunder_ns{
 			// - insert functions - //
 			string functions_string = "\n";
 			for (int i=0; i<functions.size(); i++){
-				functions_string.append("\t\t// - " + functions[i].description + " - //\n");
+				functions_string.append("\t\t// - " + comment_text(functions[i].description) + " - //\n");
 				functions_string.append("\t\t"+get_ret_type(functions[i])+" get_" + functions[i].name + "();\n\n");
 			}
 			replace_all(file_content_h, "/*#-FUNCTIONS_H-#*/", functions_string);
@@ -209,7 +229,7 @@ namespace thunder_ns{
 				// }
 				// other parts
 				string ret_type = get_ret_type(functions[i]);
-				functions_string.append("// - " + functions[i].description + " - //\n");
+				functions_string.append("// - " + comment_text(functions[i].description) + " - //\n");
 				functions_string.append(ret_type + " thunder_" + to_robot + "::" + fun_name + "(){\n");
 				// functions_string.append("\tEigen::MatrixXd out;\n");
 				// functions_string.append("\tout.resize("+to_string(out_size[0])+","+to_string(out_size[1])+");\n");
@@ -252,7 +272,7 @@ namespace thunder_ns{
 
 				// pybindings
 				if(gen_python)
-					functions_pybindings.append("\t\t.def(\"" + fun_name + "\", &thunder_" + to_robot + "::" + fun_name + ", \""+ functions[i].description +"\")\n");
+					functions_pybindings.append("\t\t.def(\"" + fun_name + "\", &thunder_" + to_robot + "::" + fun_name + ", \""+ literal_text(functions[i].description) +"\")\n");
 			}
 			replace_all(file_content_cpp, "/*#-FUNCTIONS_CPP-#*/", functions_string);
 
-- 
2.43.0


From f831837a790f9415b85d4254046898bf2a4305ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:06 +0000
Subject: [PATCH 25/29] fix: saving configurations and parameters reports
 failure when the file cannot be written

---
 src/thunder/src/genYaml.cpp                          |  8 ++++++++
 src/thunder/src/robot.cpp                            | 12 ++++++++++++
 src/thunder/thunder_robot_template/thunder_robot.cpp | 10 ++++++++--
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/thunder/src/genYaml.cpp b/src/thunder/src/genYaml.cpp
index 9b8d6b6..dbd329e 100644
--- a/src/thunder/src/genYaml.cpp
+++ b/src/thunder/src/genYaml.cpp
@@ -125,6 +125,10 @@ namespace thunder_ns{
 				std::ofstream fout(out_REG_file);
 				fout << emitter.c_str();
 				fout.close();
+				if (!fout) {
+					std::cerr << "Error while writing " << out_REG_file << std::endl;
+					return 0;
+				}
 			} catch (const YAML::Exception& e) {
 				std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 				return 0;
@@ -136,6 +140,10 @@ namespace thunder_ns{
 				std::ofstream fout(out_DYN_file);
 				fout << emitter.c_str();
 				fout.close();
+				if (!fout) {
+					std::cerr << "Error while writing " << out_DYN_file << std::endl;
+					return 0;
+				}
 			} catch (const YAML::Exception& e) {
 				std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 				return 0;
diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 3b1c012..aecf5f9 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -899,6 +899,10 @@ namespace thunder_ns{
 			std::ofstream fout(par_file);
 			fout << emitter.c_str();
 			fout.close();
+			if (!fout) {
+				std::cerr << "Error while writing " << par_file << std::endl;
+				return 0;
+			}
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 			return 0;
@@ -953,6 +957,10 @@ namespace thunder_ns{
 			std::ofstream fout(par_file);
 			fout << emitter.c_str();
 			fout.close();
+			if (!fout) {
+				std::cerr << "Error while writing " << par_file << std::endl;
+				return 0;
+			}
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 			return 0;
@@ -993,6 +1001,10 @@ namespace thunder_ns{
 			std::ofstream fout(par_file);
 			fout << emitter.c_str();
 			fout.close();
+			if (!fout) {
+				std::cerr << "Error while writing " << par_file << std::endl;
+				return 0;
+			}
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 			return 0;
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 5154bfa..cf396af 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -640,7 +640,8 @@ void thunder_robot::save_par_REG(std::string path_yaml_DH_REG){
 		fout << emitter.c_str();
 		fout.close();
 
-		std::cout << "par_REG saved on path: " << path_yaml_DH_REG << std::endl;
+		if (fout) std::cout << "par_REG saved on path: " << path_yaml_DH_REG << std::endl;
+		else std::cerr << "Error while writing " << path_yaml_DH_REG << std::endl;
 
 	} catch (const YAML::Exception& e) {
 		std::cerr << "Error while generating YAML: " << e.what() << std::endl;
@@ -677,7 +678,8 @@ void thunder_robot::save_par_DYN(std::string path_yaml_DH_DYN){
 		fout << emitter.c_str();
 		fout.close();
 
-		std::cout << "par_DYN saved on path: " << path_yaml_DH_DYN << std::endl;
+		if (fout) std::cout << "par_DYN saved on path: " << path_yaml_DH_DYN << std::endl;
+		else std::cerr << "Error while writing " << path_yaml_DH_DYN << std::endl;
 
 	} catch (const YAML::Exception& e) {
 		std::cerr << "Error while generating YAML: " << e.what() << std::endl;
@@ -741,6 +743,10 @@ int thunder_robot::save_par(std::string par_file){
 		std::ofstream fout(par_file);
 		fout << emitter.c_str();
 		fout.close();
+		if (!fout) {
+			std::cerr << "Error while writing " << par_file << std::endl;
+			return 0;
+		}
 	} catch (const YAML::Exception& e) {
 		std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 		return 0;
-- 
2.43.0


From e6199bdcaa6b0b9f49d717255c77903639a1c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:27 +0000
Subject: [PATCH 26/29] fix: generation does not need the HOME environment
 variable

---
 src/thunder/thunder_main.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/thunder/thunder_main.cpp b/src/thunder/thunder_main.cpp
index b8ed7a8..5512116 100755
--- a/src/thunder/thunder_main.cpp
+++ b/src/thunder/thunder_main.cpp
@@ -153,9 +153,6 @@ int main(int argc, char* argv[]){
 	std::string thunder_robot_h_path;
 	std::string python_cmake_file;
 
-	// Get home/.local/share directory
-	std::string home = std::getenv("HOME");
-	// std::string template_path = home + "/.local/share/thunder_dynamics/thunder_robot_template/";
 	std::string template_path = "/usr/local/share/thunder_dynamics/thunder_robot_template/";
 
 	if (std::filesystem::is_directory(template_path)){
-- 
2.43.0


From 3d64d04aad530f2f27654f25416d2ee6abc66de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:49 +0000
Subject: [PATCH 27/29] fix: generation reports failure when one of its files
 cannot be written

---
 src/thunder/library/robot.h  |  2 +-
 src/thunder/src/robot.cpp    | 33 ++++++++++++++++++++++++++++-----
 src/thunder/src/utils.cpp    | 18 +++++++++++++++++-
 src/thunder/thunder_main.cpp | 19 ++++++++++++-------
 4 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/src/thunder/library/robot.h b/src/thunder/library/robot.h
index b6bdf82..086bb80 100644
--- a/src/thunder/library/robot.h
+++ b/src/thunder/library/robot.h
@@ -203,7 +203,7 @@ namespace thunder_ns{
 			std::vector<fun_obj> get_functions(bool onlyNames = 1);
 			// std::vector<casadi::Function> getCasadiFunctions();
 			int add_function(std::string name, casadi::SX expr, std::vector<std::string> f_args, std::string descr = "", bool overwrite = true);
-			void generate_library(const std::string& savePath, const std::string& name_file, const bool SAVE_CASADI);
+			int generate_library(const std::string& savePath, const std::string& name_file, const bool SAVE_CASADI);
 
 	};
 
diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index aecf5f9..58b71cb 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1138,7 +1138,16 @@ namespace thunder_ns{
 		return 1;
 	}
 
-	void Robot::generate_library(const std::string& savePath, const std::string& name_file, const bool SAVE_CASADI){
+	// true if the file ends with the given text: casadi does not tell if it could write all of it
+	static bool file_ends_with(const std::string& file_path, const std::string& text){
+		std::ifstream file(file_path, std::ios::binary);
+		std::string content(text.size(), ' ');
+		file.seekg(-(std::streamoff)text.size(), std::ios::end);
+		file.read(&content[0], content.size());
+		return file && content == text;
+	}
+
+	int Robot::generate_library(const std::string& savePath, const std::string& name_file, const bool SAVE_CASADI){
 		// Options for c-code auto generation
 		casadi::Dict opts = casadi::Dict();
 		opts["cpp"] = true;
@@ -1153,17 +1162,31 @@ namespace thunder_ns{
 			// cout<<"f_name: "<<f.first<<endl;
 			// cout<<"fun: "<<f.second<<endl<<endl;
 		}
-		myCodeGen.generate(savePath);
+		std::string source_file = myCodeGen.generate(savePath);
+		std::string header_file = savePath + name_file + ".h";
+		std::string header = myCodeGen.header.str();
+		if (!file_ends_with(header_file, header) || !file_ends_with(source_file, myCodeGen.dump())){
+			std::cerr << "Error while writing " << source_file << " and " << header_file << std::endl;
+			return 0;
+		}
 
 		if(SAVE_CASADI){
 			// Save CasADi functions
 			for (const auto& f : casadi_fun) {
 				std::string function_file = savePath + "/" + f.first + ".casadi";
-				// std::ofstream file(function_file, std::ios::binary);
-				f.second.save(function_file);
-				// file.close();
+				casadi::StringSerializer content;	// as f.second.save(function_file), which does not tell if it could write all of it
+				content.pack(f.second);
+				std::ofstream file(function_file, std::ios::binary);
+				file << content.encode();
+				file.close();
+				if (!file) {
+					std::cerr << "Error while writing " << function_file << std::endl;
+					return 0;
+				}
 			}
 		}
+
+		return 1;
 	}
 
 	int Robot::subs_symb_par(std::string par){
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index e8f599e..91b103d 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -191,12 +191,16 @@ namespace thunder_ns{
 			ofstream out_h(file_path_h);
 			out_h << file_content_h;
 			out_h.close();
+			if (!out_h) {
+				cerr << "Error while writing " << file_path_h << endl;
+				return 0;
+			}
 		}
 
 		// --- file .cpp --- //
 		if(gen_python){
 			// - add bindings template - //
-			add_bindings_template(file_path_cpp);
+			if (!add_bindings_template(file_path_cpp)) return 0;
 		}
 
 		ifstream file_cpp(file_path_cpp); // open in reading mode
@@ -287,6 +291,10 @@ namespace thunder_ns{
 			ofstream out_cpp(file_path_cpp);
 			out_cpp << file_content_cpp;
 			out_cpp.close();
+			if (!out_cpp) {
+				cerr << "Error while writing " << file_path_cpp << endl;
+				return 0;
+			}
 		}
 
 		return 1;
@@ -311,6 +319,10 @@ namespace thunder_ns{
 			ofstream out_cmake(file_path);
 			out_cmake << file_content_cmake;
 			out_cmake.close();
+			if (!out_cmake) {
+				cerr << "Error while writing " << file_path << endl;
+				return 0;
+			}
 		}
 		return 1;
 	}
@@ -394,6 +406,10 @@ PYBIND11_MODULE(thunder_robot_py, m) {
 			ofstream out_cpp(file_path_cpp);
 			out_cpp << file_content_cpp;
 			out_cpp.close();
+			if (!out_cpp) {
+				cerr << "Error while writing " << file_path_cpp << endl;
+				return 0;
+			}
 		}
 		return 1;
 	}
diff --git a/src/thunder/thunder_main.cpp b/src/thunder/thunder_main.cpp
index 5512116..72e27ca 100755
--- a/src/thunder/thunder_main.cpp
+++ b/src/thunder/thunder_main.cpp
@@ -144,7 +144,10 @@ int main(int argc, char* argv[]){
 	// Generate library
 	// if( gen_command.get<bool>("casadi"))
 	// 	std::cout<<"Saving Casadi functions!"<<std::endl;
-	robot.generate_library(absolutePath, robot_name_gen, GEN_CASADI);
+	if (!robot.generate_library(absolutePath, robot_name_gen, GEN_CASADI)){
+		std::cout<<"problem on writing the library:"<<std::endl;
+		return 0;
+	}
 
 	// --- Write thunder_robot into generatedFiles --- //
 	std::filesystem::path sourcePath;
@@ -192,8 +195,10 @@ int main(int argc, char* argv[]){
 	// --- generate parameters files --- //
 	std::string par_file = absolutePath + robot_name + "_conf.yaml";
 	std::string par_REG_file = absolutePath + robot_name + "_par_REG.yaml";
-	robot.save_conf(par_file);
-	robot.save_par_REG(par_REG_file);
+	if (!robot.save_conf(par_file) || !robot.save_par_REG(par_REG_file)){
+		std::cout<<"problem on writing the parameters files:"<<std::endl;
+		return 0;
+	}
 	// if (!genInertial_files(robot_name, nj, config_file, par_file, par_REG_file)){
 	// 	return 0;
 	// }
@@ -216,14 +221,14 @@ int main(int argc, char* argv[]){
 	
 	// --- copy generated files in thunder_robot project --- //
 	if(COPY_GEN_FLAG){
-		copy_to(robot_name, absolutePath, PATH_COPY_YAML, PATH_COPY_YAML, PATH_COPY_H, PATH_COPY_CPP);
-		std::cout << "Copied to thunder_robot!" << std::endl;
+		if (copy_to(robot_name, absolutePath, PATH_COPY_YAML, PATH_COPY_YAML, PATH_COPY_H, PATH_COPY_CPP))
+			std::cout << "Copied to thunder_robot!" << std::endl;
 	}
 
 	// --- copy generated files in thunder_robot project --- //
 	if(COPY_GEN_CHRONO_FLAG){
-		copy_to(robot_name, absolutePath, PATH_COPY_CHRONO_YAML, PATH_COPY_CHRONO_YAML, PATH_COPY_CHRONO_H, PATH_COPY_CHRONO_CPP);
-		std::cout << "Copied to thunder_robot_chrono!" << std::endl;
+		if (copy_to(robot_name, absolutePath, PATH_COPY_CHRONO_YAML, PATH_COPY_CHRONO_YAML, PATH_COPY_CHRONO_H, PATH_COPY_CHRONO_CPP))
+			std::cout << "Copied to thunder_robot_chrono!" << std::endl;
 	}
 
 	// --- elapsed time --- //
-- 
2.43.0


From c2122f322cfc2549610882768333ae33f436163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:49 +0000
Subject: [PATCH 28/29] fix: genYAML reports failure when one of its files
 cannot be written

---
 src/genYAML/main_YAML.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/genYAML/main_YAML.cpp b/src/genYAML/main_YAML.cpp
index 082f580..322164b 100644
--- a/src/genYAML/main_YAML.cpp
+++ b/src/genYAML/main_YAML.cpp
@@ -198,6 +198,10 @@ int main(){
         std::ofstream fout(path_yaml_DH);
         fout << emitter.c_str();
         fout.close();
+        if (!fout) {
+            std::cerr << "Error while writing " << path_yaml_DH << std::endl;
+            return 1;
+        }
 
         std::cout << "Successfully generated YAML file of inertial parameter for DH parametrization"<<std::endl;
         std::cout<< " path: " << path_yaml_DH << std::endl;
@@ -214,6 +218,10 @@ int main(){
         std::ofstream fout(path_yaml_DH_DYN + ".yaml");
         fout << emitter.c_str();
         fout.close();
+        if (!fout) {
+            std::cerr << "Error while writing " << path_yaml_DH_DYN + ".yaml" << std::endl;
+            return 1;
+        }
         
         std::cout << "Successfully generated YAML file of inertial parameters for dynamics"<<std::endl;
         std::cout<< " path: " << path_yaml_DH_DYN + ".yaml" << std::endl;
@@ -267,6 +275,10 @@ int main(){
             std::ofstream fout(path_yaml_DH_REG + pp + ".yaml");
             fout << emitter.c_str();
             fout.close();
+            if (!fout) {
+                std::cerr << "Error while writing " << path_yaml_DH_REG + pp + ".yaml" << std::endl;
+                return 1;
+            }
 
             std::cout << "Successfully generated YAML file of inertial parameters for regressor"<<std::endl;
             std::cout<< " path: " << path_yaml_DH_REG + "_p" + std::to_string((int)coeff_p[w]) + ".yaml"<< std::endl;
-- 
2.43.0


From 44336e18473dedf8e9de167f78195346100e3a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:50 +0000
Subject: [PATCH 29/29] fix: class parameters are laid out by the flags the
 class was generated with

load_conf of a generated class took the symbolic flags of DH table, gravity,
base and end-effector frames from the loaded file, while the generated
functions read the entries that were symbolic at generation. With a file that
has fewer or no flags they read after the end of the parameters, with another
selection they used the wrong entries. The flags are now part of the class.
---
 src/thunder/src/utils.cpp                     | 10 ++++
 .../thunder_robot_template/thunder_robot.cpp  | 48 ++++---------------
 .../thunder_robot_template/thunder_robot.h    |  6 ++-
 3 files changed, 25 insertions(+), 39 deletions(-)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 91b103d..583f907 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -179,6 +179,16 @@ namespace thunder_ns{
 			eJ_str += "}";
 			replace_all(file_content_h, "/*#-isElasticJoint-#*/", eJ_str);
 
+			// symbolic parameters
+			for (string par : {"DHtable", "gravity", "world2L0", "Ln2EE"}){
+				const std::vector<int>& symb_flag = robot.symb["par_" + par];
+				string symb_str;
+				for (int i=0; i<(int)symb_flag.size(); i++){
+					symb_str += (i>0 ? ", " : "") + to_string(symb_flag[i]);
+				}
+				replace_all(file_content_h, "/*#-" + par + "_symb-#*/", "{" + symb_str + "}");
+			}
+
 			// - insert functions - //
 			string functions_string = "\n";
 			for (int i=0; i<functions.size(); i++){
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index cf396af..e8bcad7 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -29,20 +29,16 @@ void thunder_robot::resizeVariables(){
 	par_D = Eigen::VectorXd::Zero(D_order*numElasticJoints);
 	par_Dm = Eigen::VectorXd::Zero(Dm_order*numElasticJoints);
 	par_Mm = Eigen::VectorXd::Zero(numElasticJoints);
-	par_DHtable = Eigen::VectorXd::Zero(n_joints*4);
-	par_world2L0 = Eigen::VectorXd::Zero(6);
-	par_Ln2EE = Eigen::VectorXd::Zero(6);
-	par_gravity = Eigen::VectorXd::Zero(3);
-	DHtable_symb.resize(n_joints*4);
-	for (int i=0; i<n_joints*4; i++) DHtable_symb[i] = 0;
-	gravity_symb.resize(3);
-	for (int i=0; i<3; i++) gravity_symb[i] = 0;
-	world2L0_symb.resize(6);
-	Ln2EE_symb.resize(6);
-	for (int i=0; i<6; i++){
-		world2L0_symb[i] = 0;
-		Ln2EE_symb[i] = 0;
-	}
+	// of these parameters only the symbolic ones are stored
+	auto symb_size = [](const std::vector<int>& symb) {
+		int sz = 0;
+		for (int v : symb) if (v) sz++;
+		return sz;
+	};
+	par_DHtable = Eigen::VectorXd::Zero(symb_size(DHtable_symb));
+	par_world2L0 = Eigen::VectorXd::Zero(symb_size(world2L0_symb));
+	par_Ln2EE = Eigen::VectorXd::Zero(symb_size(Ln2EE_symb));
+	par_gravity = Eigen::VectorXd::Zero(symb_size(gravity_symb));
 }
 
 int thunder_robot::get_numJoints() {return n_joints;};
@@ -382,14 +378,8 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			YAML::Node kinematics = config["kinematics"];
 			std::vector<double> dh_vect = kinematics["DH"].as<std::vector<double>>();
 			// par_DHtable = Eigen::Map<Eigen::VectorXd>(&dh_vect[0], nj*4).reshaped<Eigen::RowMajor>(nj, 4);
-			if (kinematics["symb"]){
-				DHtable_symb = kinematics["symb"].as<std::vector<int>>();
-			} else {
-				// no parameters here
-			}
 			int sz = dh_vect.size();
 			check_size("DH", sz, n_joints*4);
-			check_size("kinematics symb", DHtable_symb.size(), n_joints*4);
 			par_DHtable.resize(n_joints*4);
 			// par_DHtable.resize(sz);
 			// for (int i=0; i<sz; i++){
@@ -409,11 +399,6 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		// - Frame Offsets - //
 		if (config["Base_to_L0"]){
 			YAML::Node frame_base = config["Base_to_L0"];
-			if (frame_base["symb"]){
-				world2L0_symb = frame_base["symb"].as<std::vector<int>>();
-			} else {
-				// no parameters here
-			}
 			// int sz = 0;
 			// for (int v : world2L0_symb) if (v) sz++;
 			// std::cout << "sz: " << sz << std::endl;
@@ -421,7 +406,6 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			std::vector<double> ypr = frame_base["ypr"].as<std::vector<double>>();
 			check_size("Base_to_L0 tr", tr.size(), 3);
 			check_size("Base_to_L0 ypr", ypr.size(), 3);
-			check_size("Base_to_L0 symb", world2L0_symb.size(), 6);
 			par_world2L0.resize(6);
 			// Eigen::VectorXd world2L0_new(sz);
 			int sz1=0, sz2=0;
@@ -443,11 +427,6 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 
 		if (config["Ln_to_EE"]){
 			YAML::Node frame_ee = config["Ln_to_EE"];
-			if (frame_ee["symb"]){
-				Ln2EE_symb = frame_ee["symb"].as<std::vector<int>>();
-			} else {
-				// no parameters here
-			}
 			// int sz = 0;
 			// for (int v : Ln2EE_symb) if (v) sz++;
 			// std::cout << "sz: " << sz << std::endl;
@@ -455,7 +434,6 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			std::vector<double> ypr = frame_ee["ypr"].as<std::vector<double>>();
 			check_size("Ln_to_EE tr", tr.size(), 3);
 			check_size("Ln_to_EE ypr", ypr.size(), 3);
-			check_size("Ln_to_EE symb", Ln2EE_symb.size(), 6);
 			par_Ln2EE.resize(6);
 			// Eigen::VectorXd Ln2EE_new(sz);
 			int sz1=0, sz2=0;
@@ -512,16 +490,10 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		// - Gravity - //
 		if (config["gravity"]){
 			YAML::Node gravity_node = config["gravity"];
-			if (gravity_node["symb"]){
-				gravity_symb = gravity_node["symb"].as<std::vector<int>>();
-			} else {
-				// no parameters here
-			}
 			// int sz = 0;
 			// for (int v : gravity_symb) if (v) sz++;
 			std::vector<double> grav = gravity_node["value"].as<std::vector<double>>();
 			check_size("gravity value", grav.size(), 3);
-			check_size("gravity symb", gravity_symb.size(), 3);
 			par_gravity.resize(3);
 			// Eigen::VectorXd gravity_new(sz);
 			int sz1 = 0;
diff --git a/src/thunder/thunder_robot_template/thunder_robot.h b/src/thunder/thunder_robot_template/thunder_robot.h
index 9669cf0..8d7b65b 100644
--- a/src/thunder/thunder_robot_template/thunder_robot.h
+++ b/src/thunder/thunder_robot_template/thunder_robot.h
@@ -22,7 +22,11 @@ class thunder_robot{
 		Eigen::VectorXd x, dx, ddx, ddxr, par_K, par_D, par_Dm, par_Mm;
 		Eigen::VectorXd w;
 		Eigen::VectorXd par_DHtable, par_gravity, par_world2L0, par_Ln2EE;
-		std::vector<int> DHtable_symb, gravity_symb, world2L0_symb, Ln2EE_symb;
+		// symbolic parameters of the generated functions
+		const std::vector<int> DHtable_symb = /*#-DHtable_symb-#*/;
+		const std::vector<int> gravity_symb = /*#-gravity_symb-#*/;
+		const std::vector<int> world2L0_symb = /*#-world2L0_symb-#*/;
+		const std::vector<int> Ln2EE_symb = /*#-Ln2EE_symb-#*/;
 
 		void update_inertial_DYN();
 		void update_inertial_REG();
-- 
2.43.0

