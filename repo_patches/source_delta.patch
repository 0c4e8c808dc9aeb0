From d6e8150723d259133a19b643ef42dc64759a90b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 01/29] fix: elastic torques use the joint driven by each
 elastic actuator

compute_elastic indexed q and dq with the index of the elastic actuator
instead of the index of the joint it drives, so stiffness and coupling
damping were computed on the wrong joint whenever a rigid joint precedes
an elastic one.
---
 src/thunder/src/dynamics.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/dynamics.cpp b/src/thunder/src/dynamics.cpp
index d07014d..b52089b 100644
--- a/src/thunder/src/dynamics.cpp
+++ b/src/thunder/src/dynamics.cpp
@@ -311,17 +311,23 @@ namespace thunder_ns{
 			// casadi::SX D(numElasticJoints,numElasticJoints);
 			// casadi::SX Dm(numElasticJoints,numElasticJoints);
 			casadi::SX Mm(numElasticJoints,numElasticJoints);
+			// index of the joint driven by each elastic actuator
+			std::vector<int> elasticIndex;
+			for (int j=0; j<(int)isElasticJoint.size(); j++){
+				if (isElasticJoint[j]) elasticIndex.push_back(j);
+			}
 			for (int i=0; i<numElasticJoints; i++){
+				int j = elasticIndex[i];
 				for (int ord=0; ord<K_order; ord++){
-					k(i) += pow(x(i)-q(i), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
+					k(i) += pow(x(i)-q(j), 2*ord+1) * par_K(i*K_order+ord);	// ^1,3,5...
 					K_vec[ord].resize(numElasticJoints,numElasticJoints);
 					K_vec[ord](i,i) = par_K(i*K_order + ord);
 				}
 				for (int ord=0; ord<D_order; ord++){
 					if (ord%2 == 0){
-						d(i) += pow(dx(i)-dq(i), ord+1) * par_D(i*D_order+ord);
+						d(i) += pow(dx(i)-dq(j), ord+1) * par_D(i*D_order+ord);
 					} else {
-						d(i) += sqrt(pow(dx(i)-dq(i), 2)) * pow(dx(i)-dq(i), ord) * par_D(i*D_order+ord);
+						d(i) += sqrt(pow(dx(i)-dq(j), 2)) * pow(dx(i)-dq(j), ord) * par_D(i*D_order+ord);
 					}
 					D_vec[ord].resize(numElasticJoints,numElasticJoints);
 					D_vec[ord](i,i) = par_D(i*D_order + ord);
-- 
2.43.0


From 7917eda85791d58676ed2299ff74ae62db98e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 02/29] fix: setting one inertial parameter set of a Robot
 updates the other

The synchronisation in set_par_DYN/set_par_REG was unreachable (after
return), so the two sets disagreed after any update; get/set_par_DYN also
read uninitialised memory, or wrote out of range, when only part of the
inertial parameters is symbolic.
---
 src/thunder/library/robot.h |  3 ++
 src/thunder/src/robot.cpp   | 63 ++++++++++++++++++++++++++-----------
 2 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/src/thunder/library/robot.h b/src/thunder/library/robot.h
index b966fa3..2442790 100644
--- a/src/thunder/library/robot.h
+++ b/src/thunder/library/robot.h
@@ -31,6 +31,7 @@ namespace thunder_ns{
 			// std::vector<fun_obj> functions;
 			int parse_config();
 			void initVarsFuns();
+			void store_par_DYN(const Eigen::VectorXd& value);
 			/* Create and initialize casadi function */
 			// void init_casadi_functions();
 			/* Update result of casadi functions */
@@ -73,6 +74,8 @@ namespace thunder_ns{
 			// std::vector<int> gravity_symb;
 			// Input of casadi function //
 			std::map<std::string, casadi::SX> args;
+			// values of par_DYN when the model was computed, valid for the non-symbolic ones //
+			Eigen::VectorXd par_DYN_fixed;
 			std::map<std::string, casadi::Function> casadi_fun;
 			std::map<std::string, std::vector<std::string>> fun_args;
 			std::map<std::string, std::string> fun_descr;
diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 3a902f2..7df0a14 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -506,34 +506,46 @@ namespace thunder_ns{
 	}
 
 	int Robot::set_par_DYN(Eigen::VectorXd value){
-		casadi::SX& par_DYN = args["par_DYN"];
 		int numPar = STD_PAR_LINK*numJoints;
-		if (value.size() == numPar){
-			for (int i=0; i<numPar; i++){
-				par_DYN(i) = value(i);
-			}
-			return 1;
-		} else {
+		if (value.size() != numPar){
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
+		store_par_DYN(value);
 		// change par_REG
 		update_inertial_REG();
+		return 1;
 	}
 
 	int Robot::set_par_REG(Eigen::VectorXd value){
 		casadi::SX& par_REG = args["par_REG"];
 		int numPar = STD_PAR_LINK*numJoints;
-		if (value.size() == numPar){
-			for (int i=0; i<numPar; i++){
-				par_REG(i) = value(i);
-			}
-			return 1;
-		} else {
+		if (value.size() != numPar){
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
+		for (int i=0; i<numPar; i++){
+			par_REG(i) = value(i);
+		}
+		// change par_DYN
 		update_inertial_DYN();
+		// parameters fixed in the configuration did not follow, keep the two sets consistent
+		if (args["par_DYN"].size1() != numPar) update_inertial_REG();
+		return 1;
+	}
+
+	void Robot::store_par_DYN(const Eigen::VectorXd& value){
+		casadi::SX& par_DYN = args["par_DYN"];
+		int numPar = STD_PAR_LINK*numJoints;
+		// after update_symb_parameters() only the symbolic parameters are arguments
+		bool packed = (par_DYN.size1() != numPar);
+		const std::vector<int>& par_symb = symb["par_DYN"];
+		int sz = 0;
+		for (int i=0; i<numPar; i++){
+			if (packed && !par_symb[i]) continue;
+			par_DYN(sz) = value(i);
+			sz++;
+		}
 	}
 
 
@@ -547,11 +559,19 @@ namespace thunder_ns{
 	}
 
 	Eigen::VectorXd Robot::get_par_DYN(){
-		const casadi::SX& par_DYN_casadi = args["par_DYN"];
+		Eigen::VectorXd par_arg = get_arg("par_DYN");
 		int numPar = STD_PAR_LINK*numJoints;
-		Eigen::VectorXd param_DYN(numPar);
-		std::vector<casadi::SXElem> res_elements = par_DYN_casadi.get_elements();
-		std::transform(res_elements.begin(), res_elements.end(), param_DYN.data(), mapFunction);
+		if (par_arg.size() == numPar) return par_arg;
+		// only the symbolic parameters are arguments, the others are fixed in the model
+		Eigen::VectorXd param_DYN = par_DYN_fixed;
+		const std::vector<int>& par_symb = symb["par_DYN"];
+		int sz = 0;
+		for (int i=0; i<numPar; i++){
+			if (par_symb[i]){
+				param_DYN(i) = par_arg(sz);
+				sz++;
+			}
+		}
 		return param_DYN;
 	}
 
@@ -935,7 +955,7 @@ namespace thunder_ns{
 			// }
 			param_DYN.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, CoM, I-I_tmp_v;
 		}
-		set_par_DYN(param_DYN);
+		store_par_DYN(param_DYN);
 		return 1;
 	}
 
@@ -968,7 +988,10 @@ namespace thunder_ns{
 			// }
 			param_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, m_CoM, I+I_tmp_v;
 		}
-		set_par_REG(param_REG);
+		casadi::SX& par_REG = args["par_REG"];
+		for (int i=0; i<STD_PAR_LINK*numJoints; i++){
+			par_REG(i) = param_REG(i);
+		}
 		return 1;
 	}
 
@@ -1099,6 +1122,8 @@ namespace thunder_ns{
 	}
 
 	int Robot::update_symb_parameters(){
+		// - keep the values of the parameters that are fixed in the model - //
+		par_DYN_fixed = get_par_DYN();
 		// - resize parameter variables to right dimension - //
 		for (auto par_symb : symb){
 			int sz_original = par_symb.second.size();
-- 
2.43.0


From c319d91592d45d10393fd4d1d876fd6e123d9aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 03/29] fix: Robot::load_par_REG reads the layout written by
 save_par_REG

save_par_REG (and the generated libraries) store the parameters under
dynamics/<link>/inertial, load_par_REG looked for a top level 'inertial'
map and silently loaded all zeros.
---
 src/thunder/src/robot.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 7df0a14..52d0a57 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -752,28 +752,29 @@ namespace thunder_ns{
 			// load yaml
 			YAML::Node config_file = YAML::LoadFile(file);
 			// load inertial
-			YAML::Node inertial = config_file["inertial"];
+			YAML::Node dynamics = config_file["dynamics"];
 			int i = 0;
-			for (const auto& node : inertial) {
+			for (const auto& node : dynamics) {
 				
 				if (i==numJoints) break;
 				std::string linkName = node.first.as<std::string>();
+				YAML::Node inertial = node.second["inertial"];
 				
 				// standard parameters
-				param_REG(STD_PAR_LINK*i) = node.second["mass"].as<double>();
-				param_REG(STD_PAR_LINK*i+1) = node.second["m_CoM_x"].as<double>();
-				param_REG(STD_PAR_LINK*i+2) = node.second["m_CoM_y"].as<double>();
-				param_REG(STD_PAR_LINK*i+3) = node.second["m_CoM_z"].as<double>();
-				param_REG(STD_PAR_LINK*i+4) = node.second["Ixx"].as<double>();
-				param_REG(STD_PAR_LINK*i+5) = node.second["Ixy"].as<double>();
-				param_REG(STD_PAR_LINK*i+6) = node.second["Ixz"].as<double>();
-				param_REG(STD_PAR_LINK*i+7) = node.second["Iyy"].as<double>();
-				param_REG(STD_PAR_LINK*i+8) = node.second["Iyz"].as<double>();
-				param_REG(STD_PAR_LINK*i+9) = node.second["Izz"].as<double>();
+				param_REG(STD_PAR_LINK*i) = inertial["mass"].as<double>();
+				param_REG(STD_PAR_LINK*i+1) = inertial["m_CoM_x"].as<double>();
+				param_REG(STD_PAR_LINK*i+2) = inertial["m_CoM_y"].as<double>();
+				param_REG(STD_PAR_LINK*i+3) = inertial["m_CoM_z"].as<double>();
+				param_REG(STD_PAR_LINK*i+4) = inertial["Ixx"].as<double>();
+				param_REG(STD_PAR_LINK*i+5) = inertial["Ixy"].as<double>();
+				param_REG(STD_PAR_LINK*i+6) = inertial["Ixz"].as<double>();
+				param_REG(STD_PAR_LINK*i+7) = inertial["Iyy"].as<double>();
+				param_REG(STD_PAR_LINK*i+8) = inertial["Iyz"].as<double>();
+				param_REG(STD_PAR_LINK*i+9) = inertial["Izz"].as<double>();
 
 				// link friction
-				if (node.second["Dl"]){
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+				if (node.second["friction"]){
+					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
 					for (int j=0; j<Dl_order; j++){
 						param_Dl(Dl_order*i + j) = Dl[j];
 					}
-- 
2.43.0


From 6157ca5beb099e3180a73cd4c3dd0a440e4686c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 04/29] fix: a load that fails leaves a Robot unchanged

load_conf_par, load_par_REG and load_par overwrote the parameters (with
zeros, or with the part read so far) also when the file was missing,
unreadable, truncated or of another kind, load_conf_par even returned
success, and vectors of a wrong length ended in out of range accesses.
After the model is computed, load_conf_par also replaced the arguments
with vectors of full dimension, that the functions do not accept.
---
 src/thunder/library/robot.h |   4 +-
 src/thunder/library/utils.h |   3 +
 src/thunder/src/robot.cpp   | 129 +++++++++++++++++++++---------------
 src/thunder/src/utils.cpp   |   9 +++
 4 files changed, 89 insertions(+), 56 deletions(-)

diff --git a/src/thunder/library/robot.h b/src/thunder/library/robot.h
index 2442790..d4ba116 100644
--- a/src/thunder/library/robot.h
+++ b/src/thunder/library/robot.h
@@ -31,7 +31,9 @@ namespace thunder_ns{
 			// std::vector<fun_obj> functions;
 			int parse_config();
 			void initVarsFuns();
-			void store_par_DYN(const Eigen::VectorXd& value);
+			/* Set/get a parameter vector of full dimension, whether or not args keeps only the symbolic part */
+			void store_par(const std::string& par, const Eigen::VectorXd& value);
+			Eigen::VectorXd full_par(const std::string& par, int numPar);
 			/* Create and initialize casadi function */
 			// void init_casadi_functions();
 			/* Update result of casadi functions */
diff --git a/src/thunder/library/utils.h b/src/thunder/library/utils.h
index e4269b9..03bfd7f 100644
--- a/src/thunder/library/utils.h
+++ b/src/thunder/library/utils.h
@@ -4,6 +4,7 @@
 #include <string>
 #include <casadi/casadi.hpp>
 #include <eigen3/Eigen/Dense>
+#include <yaml-cpp/yaml.h>
 #include "FrameOffset.h"
 
 namespace thunder_ns{
@@ -46,6 +47,8 @@ namespace thunder_ns{
 	void replace_all(std::string& str, const std::string& from_str, const std::string& to_str);
 	int add_bindings_template(const std::string file_path_cpp);
 	std::string get_ret_type(const fun_obj fun);
+	/* Read the whole file and parse it, throw an exception if it is not possible */
+	YAML::Node load_yaml(const std::string& file_path);
 
 	casadi::SX hat(const casadi::SX& v);
 	Eigen::Matrix3d hat(const Eigen::Vector3d& v);
diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 52d0a57..f4137f9 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -511,7 +511,7 @@ namespace thunder_ns{
 			std::cout<<"in setArguments: invalid dimensions of arguments\n";
 			return 0;
 		}
-		store_par_DYN(value);
+		store_par("par_DYN", value);
 		// change par_REG
 		update_inertial_REG();
 		return 1;
@@ -529,25 +529,38 @@ namespace thunder_ns{
 		}
 		// change par_DYN
 		update_inertial_DYN();
-		// parameters fixed in the configuration did not follow, keep the two sets consistent
-		if (args["par_DYN"].size1() != numPar) update_inertial_REG();
 		return 1;
 	}
 
-	void Robot::store_par_DYN(const Eigen::VectorXd& value){
-		casadi::SX& par_DYN = args["par_DYN"];
-		int numPar = STD_PAR_LINK*numJoints;
+	void Robot::store_par(const std::string& par, const Eigen::VectorXd& value){
+		casadi::SX& par_arg = args[par];
+		int numPar = value.size();
 		// after update_symb_parameters() only the symbolic parameters are arguments
-		bool packed = (par_DYN.size1() != numPar);
-		const std::vector<int>& par_symb = symb["par_DYN"];
+		bool packed = (par_arg.size1() != numPar);
+		const std::vector<int>& par_symb = symb[par];
 		int sz = 0;
 		for (int i=0; i<numPar; i++){
 			if (packed && !par_symb[i]) continue;
-			par_DYN(sz) = value(i);
+			par_arg(sz) = value(i);
 			sz++;
 		}
 	}
 
+	Eigen::VectorXd Robot::full_par(const std::string& par, int numPar){
+		Eigen::VectorXd par_arg = get_arg(par);
+		if (par_arg.size() == numPar) return par_arg;
+		Eigen::VectorXd value = Eigen::VectorXd::Zero(numPar);
+		const std::vector<int>& par_symb = symb[par];
+		int sz = 0;
+		for (int i=0; i<numPar; i++){
+			if (par_symb[i]){
+				value(i) = par_arg(sz);
+				sz++;
+			}
+		}
+		return value;
+	}
+
 
 	Eigen::VectorXd Robot::get_arg(std::string par){
 		const casadi::SX& par_casadi = args[par];
@@ -655,19 +668,21 @@ namespace thunder_ns{
 	// }
 
 	int Robot::load_conf_par(std::string file, bool update_REG){
-		// Eigen::VectorXd param_DYN;
-		casadi::SX param_DYN(STD_PAR_LINK*numJoints,1);
-		casadi::SX param_Dl(Dl_order*numJoints,1);
-		casadi::SX param_K(numElasticJoints*K_order,1);
-		casadi::SX param_D(numElasticJoints*D_order,1);
-		casadi::SX param_Dm(numElasticJoints*Dm_order,1);
-		casadi::SX param_Mm(numElasticJoints,1);
+		// current values, they change only if the whole file is read successfully
+		Eigen::VectorXd param_DYN = get_par_DYN();
+		Eigen::VectorXd param_Dl, param_K, param_D, param_Dm, param_Mm;
+		if (Dl_order > 0) param_Dl = full_par("par_Dl", Dl_order*numJoints);
+		if (K_order > 0) param_K = full_par("par_K", K_order*numElasticJoints);
+		if (D_order > 0) param_D = full_par("par_D", D_order*numElasticJoints);
+		if (Dm_order > 0) param_Dm = full_par("par_Dm", Dm_order*numElasticJoints);
+		if (ELASTIC) param_Mm = full_par("par_Mm", numElasticJoints);
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
-			YAML::Node config_file = YAML::LoadFile(file);
+			YAML::Node config_file = load_yaml(file);
 			// load inertial
 			YAML::Node dynamics = config_file["dynamics"];
+			if (!dynamics) throw std::runtime_error("no dynamics in " + file);
 			int i = 0;
 			for (const auto& node : dynamics) {
 				YAML::Node inertial = node.second["inertial"];
@@ -691,7 +706,7 @@ namespace thunder_ns{
 				if (node.second["friction"]){
 					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
 					for (int j=0; j<Dl_order; j++){
-						param_Dl(Dl_order*i + j) = Dl[j];
+						param_Dl(Dl_order*i + j) = Dl.at(j);
 					}
 				}
 
@@ -709,17 +724,17 @@ namespace thunder_ns{
 					// stiffness
 					if (K_order > 0){
 						std::vector<double> K = node.second["K"].as<std::vector<double>>();
-						for (int j=0; j<K_order; j++) param_K(K_order*i+j) = K[j];
+						for (int j=0; j<K_order; j++) param_K(K_order*i+j) = K.at(j);
 					}
 					// coupling friction
 					if (D_order > 0){
 						std::vector<double> D = node.second["D"].as<std::vector<double>>();
-						for (int j=0; j<D_order; j++) param_D(D_order*i + j) = D[j];
+						for (int j=0; j<D_order; j++) param_D(D_order*i + j) = D.at(j);
 					}
 					// motor friction
 					if (Dm_order > 0){
 						std::vector<double> Dm = node.second["Dm"].as<std::vector<double>>();
-						for (int j=0; j<Dm_order; j++) param_Dm(Dm_order*i + j) = Dm[j];
+						for (int j=0; j<Dm_order; j++) param_Dm(Dm_order*i + j) = Dm.at(j);
 					}
 					// motor inertia
 					param_Mm(i) = node.second["Mm"].as<double>();
@@ -729,30 +744,32 @@ namespace thunder_ns{
 				// std::cout<<"YAML_DH letto"<<std::endl;
 				// std::cout<<"\nparam DYN \n"<<param_DYN<<std::endl;
 			}
-		} catch (const YAML::Exception& e) {
+		} catch (const std::exception& e) {
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+			return 0;
 		}
-		args["par_DYN"] = param_DYN;
-		if (Dl_order > 0) args["par_Dl"] = param_Dl;
-		if (K_order>0) args["par_K"] = param_K;
-		if (D_order>0) args["par_D"] = param_D;
-		if (Dm_order>0) args["par_Dm"] = param_Dm;
-		if (ELASTIC) args["par_Mm"] = param_Mm;
+		store_par("par_DYN", param_DYN);
+		if (Dl_order>0) store_par("par_Dl", param_Dl);
+		if (K_order>0) store_par("par_K", param_K);
+		if (D_order>0) store_par("par_D", param_D);
+		if (Dm_order>0) store_par("par_Dm", param_Dm);
+		if (ELASTIC) store_par("par_Mm", param_Mm);
 		if (update_REG) update_inertial_REG();
 		return 1;
 	}
 
 	casadi::SX Robot::load_par_REG(std::string file, bool update_DYN){
-		// Eigen::VectorXd param_REG;
-		casadi::SX param_REG(STD_PAR_LINK*numJoints,1);
-		casadi::SX param_Dl(Dl_order*numJoints,1);
-		// casadi::SX::zeros(numJoints,1)
+		// current values, they change only if the whole file is read successfully
+		Eigen::VectorXd param_REG = get_par_REG();
+		Eigen::VectorXd param_Dl;
+		if (Dl_order > 0) param_Dl = full_par("par_Dl", Dl_order*numJoints);
 		// ----- parsing yaml inertial ----- //
 		try {
 			// load yaml
-			YAML::Node config_file = YAML::LoadFile(file);
+			YAML::Node config_file = load_yaml(file);
 			// load inertial
 			YAML::Node dynamics = config_file["dynamics"];
+			if (!dynamics) throw std::runtime_error("no dynamics in " + file);
 			int i = 0;
 			for (const auto& node : dynamics) {
 				
@@ -776,7 +793,7 @@ namespace thunder_ns{
 				if (node.second["friction"]){
 					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
 					for (int j=0; j<Dl_order; j++){
-						param_Dl(Dl_order*i + j) = Dl[j];
+						param_Dl(Dl_order*i + j) = Dl.at(j);
 					}
 				}
 
@@ -784,40 +801,40 @@ namespace thunder_ns{
 			}
 			// std::cout<<"YAML_DH letto"<<std::endl;
 			// std::cout<<"\nparam REG \n"<<param_REG<<std::endl;
-		} catch (const YAML::Exception& e) {
+		} catch (const std::exception& e) {
 			std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+			return args["par_REG"];
 		}
-		args["par_REG"] = param_REG;
-		if (Dl_order > 0) args["par_Dl"] = param_Dl;
+		for (int i=0; i<STD_PAR_LINK*numJoints; i++) args["par_REG"](i) = param_REG(i);
+		if (Dl_order > 0) store_par("par_Dl", param_Dl);
 		if (update_DYN) update_inertial_DYN();
-		return param_REG;
+		return args["par_REG"];
 	}
 
 	int Robot::load_par(std::string par_file, std::vector<std::string> par_list){
+		// parameters read from the file, they are set only if the whole file is valid
+		std::map<std::string, Eigen::VectorXd> new_par;
 		try {
 			// load yaml
-			YAML::Node yamlFile = YAML::LoadFile(par_file);
+			YAML::Node yamlFile = load_yaml(par_file);
 			if (par_list.size() == 0){
-				for (const auto& node : yamlFile){
-					std::vector<double> par_vect = node.second.as<std::vector<double>>();
-					casadi::SX& par = args[node.first.as<std::string>()];
-					for (int i=0; i<par_vect.size(); i++){
-						par(i) = par_vect[i];
-					}
-				}
-			} else {
-				for (std::string par_str : par_list){
-					std::vector<double> par_vect = yamlFile[par_str].as<std::vector<double>>();
-					casadi::SX& par = args[par_str];
-					for (int i=0; i<par_vect.size(); i++){
-						par(i) = par_vect[i];
-					}
+				for (const auto& node : yamlFile) par_list.push_back(node.first.as<std::string>());
+			}
+			for (std::string par_str : par_list){
+				std::vector<double> par_vect = yamlFile[par_str].as<std::vector<double>>();
+				if (!args.count(par_str) || (args[par_str].size1() != (int)par_vect.size())){
+					throw std::runtime_error("wrong parameter or dimension: " + par_str);
 				}
+				new_par[par_str] = Eigen::Map<Eigen::VectorXd>(par_vect.data(), par_vect.size());
 			}
-		} catch (const YAML::Exception& e) {
+		} catch (const std::exception& e) {
 			std::cerr << "Error while loading parameters: " << e.what() << std::endl;
 			return 0;
 		}
+		for (const auto& par : new_par) set_arg(par.first, par.second);
+		// keep the two sets of inertial parameters consistent
+		if (new_par.count("par_DYN") && !new_par.count("par_REG")) update_inertial_REG();
+		if (new_par.count("par_REG") && !new_par.count("par_DYN")) update_inertial_DYN();
 		return 1;
 	}
 
@@ -956,7 +973,9 @@ namespace thunder_ns{
 			// }
 			param_DYN.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass, CoM, I-I_tmp_v;
 		}
-		store_par_DYN(param_DYN);
+		store_par("par_DYN", param_DYN);
+		// parameters fixed in the configuration did not follow, keep the two sets consistent
+		if (args["par_DYN"].size1() != STD_PAR_LINK*numJoints) update_inertial_REG();
 		return 1;
 	}
 
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 315ec68..38c0c51 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -404,6 +404,15 @@ PYBIND11_MODULE(thunder_robot_py, m) {
 	// 	return str;
 	// }
 
+	YAML::Node load_yaml(const std::string& file_path){
+		ifstream file(file_path);
+		stringstream buffer;
+		if (file.is_open()) buffer << file.rdbuf();
+		// also fails if the file is empty or it was not possible to read all of it
+		if (!file.is_open() || buffer.fail()) throw YAML::BadFile(file_path);
+		return YAML::Load(buffer);
+	}
+
 	// do not call replace often
 	void replace_all(std::string& source, const std::string& from_str, const std::string& to_str){
 		std::string newString;
-- 
2.43.0


From fd8ef97b2718b1a0febbfcec48be66a399830555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 05/29] fix: invalid or incomplete configurations are rejected

---
 src/thunder/src/robot.cpp | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index f4137f9..efe56ad 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -20,7 +20,8 @@ namespace thunder_ns{
 	}
 
 	Robot::Robot(const YAML::Node yaml){
-		load_config(yaml); 		// load config and parameters from yaml file
+		// load config and parameters from yaml file
+		if (!load_config(yaml)) throw std::runtime_error("Invalid robot configuration");
 		initVarsFuns();			// initialize variables
 	}
 
@@ -28,11 +29,12 @@ namespace thunder_ns{
 	YAML::Node Robot::load_config(std::string config_file){
 		try {
 			// load yaml
-			config_yaml = YAML::LoadFile(config_file);
+			config_yaml = load_yaml(config_file);
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while loading YAML: " << e.what() << std::endl;
+			throw std::runtime_error("Invalid robot configuration: " + config_file);
 		}
-		parse_config();
+		if (!parse_config()) throw std::runtime_error("Invalid robot configuration: " + config_file);
 		return config_yaml;
 	}
 	int Robot::load_config(YAML::Node yaml){
@@ -57,6 +59,10 @@ namespace thunder_ns{
 			this->numJoints = nj;
 			this->jointsType = config_file["type_joints"].as<std::vector<std::string>>();
 
+			if ((int)this->jointsType.size() != this->numJoints) {
+				throw std::runtime_error("Mismatch between 'num_joints' and the size of 'type_joints' vector.");
+			}
+
 			// Friction model order (defaults to 0)
 			this->Dl_order = config_file["Dl_order"] ? config_file["Dl_order"].as<int>() : 0;
 
@@ -118,6 +124,7 @@ namespace thunder_ns{
 			YAML::Node dynamics = config_file["dynamics"];
 			int link_index = 0;
 			for (const auto& node : dynamics) {
+				if (link_index==nj) break; // break if more links defined
 				YAML::Node inertial = node.second["inertial"];
 				std::vector<int> link_symb;
 				if (inertial["symb"]) {
@@ -125,9 +132,11 @@ namespace thunder_ns{
 				} else {
 					link_symb.assign(STD_PAR_LINK, 0); // Default to non-symbolic
 				}
+				link_symb.resize(STD_PAR_LINK, 0);
 				std::copy(link_symb.begin(), link_symb.end(), par_DYN_symb.begin() + link_index * STD_PAR_LINK);
 				link_index++;
 			}
+			if (link_index != nj) throw std::runtime_error("Missing dynamics of some links.");
 			
 			// Link Friction
 			std::vector<int> par_Dl_symb;
@@ -135,6 +144,7 @@ namespace thunder_ns{
 				par_Dl_symb.resize(this->Dl_order * nj);
 				link_index = 0;
 				for (const auto& node : dynamics) {
+					if (link_index==nj) break;
 					YAML::Node friction = node.second["friction"];
 					std::vector<int> fric_symb;
 					if (friction["symb"]) {
@@ -142,6 +152,7 @@ namespace thunder_ns{
 					} else {
 						fric_symb.assign(this->Dl_order, 0);
 					}
+					fric_symb.resize(this->Dl_order, 0);
 					std::copy(fric_symb.begin(), fric_symb.end(), par_Dl_symb.begin() + link_index * this->Dl_order);
 					link_index++;
 				}
@@ -201,10 +212,22 @@ namespace thunder_ns{
 			else this->symb["par_gravity"].assign(3, 0);
 
 
+			// every parameter must have its own flag
+			auto check_size = [](const std::string& par, size_t size, size_t expected) {
+				if (size != expected) throw std::runtime_error("Wrong number of elements for " + par);
+			};
+			check_size("par_DHtable", dh_vect.size(), 4*nj);
+			check_size("par_gravity", gravity_vect.size(), 3);
+			check_size("par_DHtable symb", this->symb["par_DHtable"].size(), 4*nj);
+			check_size("par_world2L0 symb", this->symb["par_world2L0"].size(), 6);
+			check_size("par_Ln2EE symb", this->symb["par_Ln2EE"].size(), 6);
+			check_size("par_gravity symb", this->symb["par_gravity"].size(), 3);
+			check_size("par_K symb", par_K_symb.size(), this->K_order*this->numElasticJoints);
+			check_size("par_D symb", par_D_symb.size(), this->D_order*this->numElasticJoints);
+			check_size("par_Dm symb", par_Dm_symb.size(), this->Dm_order*this->numElasticJoints);
+			check_size("par_Mm symb", par_Mm_symb.size(), this->ELASTIC ? this->numElasticJoints : 0);
+
 			// ---- Finalize Robot State and CasADi Model ---- //
-			if (this->jointsType.size() != this->numJoints) {
-				throw std::runtime_error("Mismatch between 'num_joints' and the size of 'type_joints' vector.");
-			}
 			
 			// Define symbolic variables for the model
 			this->model = {
@@ -1175,7 +1198,7 @@ namespace thunder_ns{
 		Robot robot(file);
 		robot.robotName = robot_name;
 		// --- load parameters --- //
-		robot.load_conf_par(file);
+		if (!robot.load_conf_par(file)) throw std::runtime_error("Invalid parameters in " + file);
 		cout<<"Configuration loaded!"<<endl;
 		// --- compute functions --- //
 		if (compute){
-- 
2.43.0


From 98e2b8c75f558ddb6520e081e5f1f677a2bb4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 06/29] fix: generated set_par_DYN and set_par_REG convert only
 an accepted vector

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 0b06891..011d85e 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -190,21 +190,21 @@ void thunder_robot::update_inertial_REG(){
 void thunder_robot::set_par_DYN(const Eigen::VectorXd& par_, bool update_REG){
 	if(par_.size() == par_DYN.size()){
 		par_DYN = par_;
+		// conversion from DYN to REG
+		if (update_REG)	update_inertial_REG();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_REG)	update_inertial_REG();
 }
 
 void thunder_robot::set_par_REG(const Eigen::VectorXd& par_, bool update_DYN){
 	if(par_.size() == par_REG.size()){
 		par_REG = par_;
+		// conversion from REG to DYN
+		if (update_DYN)	update_inertial_DYN();
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
 	}
-	// conversion from REG to DYN
-	if (update_DYN)	update_inertial_DYN();
 }
 
 void thunder_robot::set_par_K(const Eigen::VectorXd& par_){
-- 
2.43.0


From 38851caadefb2adb8fe10893424084f6a794a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 07/29] fix: a load that fails leaves a generated robot
 unchanged

---
 .../thunder_robot_template/thunder_robot.cpp  | 69 +++++++++++++------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 011d85e..81c7087 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -1,10 +1,23 @@
 #include "thunder_robot.h"
 #include "robot_gen.h"
+#include <sstream>
+#include <stdexcept>
+#include <tuple>
 
 
 /*OPTIONAL PYBIND11 INCLUDE POINT*/
 
 
+// read the whole file and parse it, throw an exception if it is not possible
+static YAML::Node load_yaml(const std::string& file_path){
+	std::ifstream file(file_path);
+	std::stringstream buffer;
+	if (file.is_open()) buffer << file.rdbuf();
+	// also fails if the file is empty or it was not possible to read all of it
+	if (!file.is_open() || buffer.fail()) throw YAML::BadFile(file_path);
+	return YAML::Load(buffer);
+}
+
 thunder_robot::thunder_robot(){
 	resizeVariables();
 }
@@ -324,11 +337,15 @@ Eigen::VectorXd thunder_robot::get_par_Ln2EE(){
 }
 
 Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_DYN){
+	// parameters change only if the whole file is read successfully
+	Eigen::VectorXd new_REG = par_REG;
 	try {
-		YAML::Node config = YAML::LoadFile(file_path);
+		YAML::Node config = load_yaml(file_path);
 		int i;
 		// --- Parse dynamics REG --- //
-		if (config["dynamics"]){
+		if (!config["dynamics"]){
+			throw std::runtime_error("no dynamics in " + file_path);
+		} else {
 			YAML::Node dynamics = config["dynamics"];
 			double mass, m_cmx, m_cmy, m_cmz, xx, xy, xz, yy, yz, zz;
 			i = 0;
@@ -347,21 +364,28 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 				yz = inertial["Iyz"].as<double>();
 				zz = inertial["Izz"].as<double>();
 
-				par_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass,m_cmx,m_cmy,m_cmz,xx,xy,xz,yy,yz,zz;
+				new_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass,m_cmx,m_cmy,m_cmz,xx,xy,xz,yy,yz,zz;
 				
 				i++;
 			}
+			par_REG = new_REG;
 			if (update_DYN) update_inertial_DYN();
 		}
-	} catch (const YAML::Exception& e) {
+	} catch (const std::exception& e) {
 		std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
 	}
 	return par_REG;
 }
 
 void thunder_robot::load_conf(std::string file_path, bool update_REG){
+	// to be restored if the file is not valid
+	const auto backup = std::make_tuple(par_DHtable, par_world2L0, par_Ln2EE, par_gravity, par_DYN, par_REG, par_Dl,
+		par_K, par_D, par_Dm, par_Mm, DHtable_symb, world2L0_symb, Ln2EE_symb, gravity_symb);
 	try {
-		YAML::Node config = YAML::LoadFile(file_path);
+		YAML::Node config = load_yaml(file_path);
+		if (!config["kinematics"] && !config["Base_to_L0"] && !config["Ln_to_EE"] && !config["dynamics"] && !config["gravity"] && !config["elastic"]){
+			throw std::runtime_error("no parameters in " + file_path);
+		}
 		int index;
 		// --- Parse kinematics --- //
 		if (config["kinematics"]){
@@ -376,6 +400,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				// no parameters here
 			}
 			int sz = dh_vect.size();
+			if (sz != n_joints*4) throw std::runtime_error("wrong size of DH table in " + file_path);
 			// par_DHtable.resize(sz);
 			// for (int i=0; i<sz; i++){
 			// 		par_DHtable(i) = dh_vect[i];
@@ -384,7 +409,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			// Eigen::VectorXd gravity_new(sz);
 			int sz1 = 0;
 			for (int i=0; i<sz; i++){
-				if (DHtable_symb[i]){
+				if (DHtable_symb.at(i)){
 					par_DHtable(sz1) = dh_vect[i];
 					sz1++;
 				}
@@ -408,14 +433,14 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			// Eigen::VectorXd world2L0_new(sz);
 			int sz1=0, sz2=0;
 			for (int i=0; i<3; i++){
-				if (world2L0_symb[i]){
-					par_world2L0(sz1) = tr[i];
+				if (world2L0_symb.at(i)){
+					par_world2L0(sz1) = tr.at(i);
 					sz1++;
 				}
 			}
 			for (int i=0; i<3; i++){
-				if (world2L0_symb[i+3]){
-					par_world2L0(sz1+sz2) = ypr[i];
+				if (world2L0_symb.at(i+3)){
+					par_world2L0(sz1+sz2) = ypr.at(i);
 					sz2++;
 				}
 			}
@@ -439,14 +464,14 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			// Eigen::VectorXd Ln2EE_new(sz);
 			int sz1=0, sz2=0;
 			for (int i=0; i<3; i++){
-				if (Ln2EE_symb[i]){
-					par_Ln2EE(sz1) = tr[i];
+				if (Ln2EE_symb.at(i)){
+					par_Ln2EE(sz1) = tr.at(i);
 					sz1++;
 				}
 			}
 			for (int i=0; i<3; i++){
-				if (Ln2EE_symb[i+3]){
-					par_Ln2EE(sz1+sz2) = ypr[i];
+				if (Ln2EE_symb.at(i+3)){
+					par_Ln2EE(sz1+sz2) = ypr.at(i);
 					sz2++;
 				}
 			}
@@ -481,7 +506,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				if (node.second["friction"]){
 					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
 					for (int j=0; j<Dl_order; j++){
-						par_Dl(Dl_order*index + j) = Dl[j];
+						par_Dl(Dl_order*index + j) = Dl.at(j);
 					}
 				}
 				index++;
@@ -503,8 +528,8 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			// Eigen::VectorXd gravity_new(sz);
 			int sz1 = 0;
 			for (int i=0; i<3; i++){
-				if (gravity_symb[i]){
-					par_gravity(sz1) = grav[i];
+				if (gravity_symb.at(i)){
+					par_gravity(sz1) = grav.at(i);
 					sz1++;
 				}
 			}
@@ -522,19 +547,19 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				// stiffness
 				for (int j=0; j<K_order; j++){
 					std::vector<double> K = node.second["K"].as<std::vector<double>>();
-					par_K(K_order*index+j) = K[j];
+					par_K(K_order*index+j) = K.at(j);
 					// std::cout<<"K_"<<j<<": "<<K[j] << std::endl;
 				}
 				// coupling friction
 				for (int j=0; j<D_order; j++){
 					std::vector<double> D = node.second["D"].as<std::vector<double>>();
-					par_D(D_order*index + j) = D[j];
+					par_D(D_order*index + j) = D.at(j);
 					// std::cout<<"D_"<<j<<": "<<D[j] << std::endl;
 				}
 				// motor friction
 				for (int j=0; j<Dm_order; j++){
 					std::vector<double> Dm = node.second["Dm"].as<std::vector<double>>();
-					par_Dm(Dm_order*index + j) = Dm[j];
+					par_Dm(Dm_order*index + j) = Dm.at(j);
 					// std::cout<<"Dm_"<<j<<": "<<Dm[j] << std::endl;
 				}
 				// motor Inertia
@@ -543,7 +568,9 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 				index++;
 			}
 		}
-	} catch (const YAML::Exception& e) {
+	} catch (const std::exception& e) {
+		std::tie(par_DHtable, par_world2L0, par_Ln2EE, par_gravity, par_DYN, par_REG, par_Dl,
+			par_K, par_D, par_Dm, par_Mm, DHtable_symb, world2L0_symb, Ln2EE_symb, gravity_symb) = backup;
 		std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
 	}
 }
-- 
2.43.0


From 1413504460c0da88418f26526bdc94c12de8ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 08/29] fix: generated load_par_REG reads the friction written
 by save_par_REG

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 81c7087..a276034 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -339,6 +339,7 @@ Eigen::VectorXd thunder_robot::get_par_Ln2EE(){
 Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_DYN){
 	// parameters change only if the whole file is read successfully
 	Eigen::VectorXd new_REG = par_REG;
+	Eigen::VectorXd new_Dl = par_Dl;
 	try {
 		YAML::Node config = load_yaml(file_path);
 		int i;
@@ -366,9 +367,17 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 
 				new_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK) << mass,m_cmx,m_cmy,m_cmz,xx,xy,xz,yy,yz,zz;
 				
+				// - link friction - //
+				if (node.second["friction"]){
+					std::vector<double> Dl = node.second["friction"]["Dl"].as<std::vector<double>>();
+					for (int j=0; j<Dl_order; j++){
+						new_Dl(Dl_order*i + j) = Dl.at(j);
+					}
+				}
 				i++;
 			}
 			par_REG = new_REG;
+			par_Dl = new_Dl;
 			if (update_DYN) update_inertial_DYN();
 		}
 	} catch (const std::exception& e) {
-- 
2.43.0


From b8d2d9b35f4b2ebc760e16e1f0ccffed35c45b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 09/29] fix: a save reports that the file could not be written

---
 src/thunder/src/robot.cpp                            | 12 ++++++++++++
 src/thunder/thunder_robot_template/thunder_robot.cpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index efe56ad..0af95b2 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -882,6 +882,10 @@ namespace thunder_ns{
 			std::ofstream fout(par_file);
 			fout << emitter.c_str();
 			fout.close();
+			if (!fout) {
+				std::cerr << "Error while writing " << par_file << std::endl;
+				return 0;
+			}
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 			return 0;
@@ -936,6 +940,10 @@ namespace thunder_ns{
 			std::ofstream fout(par_file);
 			fout << emitter.c_str();
 			fout.close();
+			if (!fout) {
+				std::cerr << "Error while writing " << par_file << std::endl;
+				return 0;
+			}
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 			return 0;
@@ -969,6 +977,10 @@ namespace thunder_ns{
 			std::ofstream fout(par_file);
 			fout << emitter.c_str();
 			fout.close();
+			if (!fout) {
+				std::cerr << "Error while writing " << par_file << std::endl;
+				return 0;
+			}
 		} catch (const YAML::Exception& e) {
 			std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 			return 0;
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index a276034..b92ecfd 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -652,6 +652,10 @@ void thunder_robot::save_par_REG(std::string path_yaml_DH_REG){
 		std::ofstream fout(path_yaml_DH_REG);
 		fout << emitter.c_str();
 		fout.close();
+		if (!fout) {
+			std::cerr << "Error while writing " << path_yaml_DH_REG << std::endl;
+			return;
+		}
 
 		std::cout << "par_REG saved on path: " << path_yaml_DH_REG << std::endl;
 
@@ -689,6 +693,10 @@ void thunder_robot::save_par_DYN(std::string path_yaml_DH_DYN){
 		std::ofstream fout(path_yaml_DH_DYN);
 		fout << emitter.c_str();
 		fout.close();
+		if (!fout) {
+			std::cerr << "Error while writing " << path_yaml_DH_DYN << std::endl;
+			return;
+		}
 
 		std::cout << "par_DYN saved on path: " << path_yaml_DH_DYN << std::endl;
 
@@ -754,6 +762,10 @@ int thunder_robot::save_par(std::string par_file){
 		std::ofstream fout(par_file);
 		fout << emitter.c_str();
 		fout.close();
+		if (!fout) {
+			std::cerr << "Error while writing " << par_file << std::endl;
+			return 0;
+		}
 	} catch (const YAML::Exception& e) {
 		std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 		return 0;
-- 
2.43.0


From 748eb0b2ff6de18ee8ef58d6826e37e9344837f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 10/29] fix: a generation that could not write its files
 reports it

---
 src/thunder/library/robot.h  |  2 +-
 src/thunder/library/utils.h  |  4 +++
 src/thunder/src/robot.cpp    | 15 +++++++++-
 src/thunder/src/utils.cpp    | 57 ++++++++++++++++--------------------
 src/thunder/thunder_main.cpp | 15 ++++++----
 5 files changed, 55 insertions(+), 38 deletions(-)

diff --git a/src/thunder/library/robot.h b/src/thunder/library/robot.h
index d4ba116..3f75b78 100644
--- a/src/thunder/library/robot.h
+++ b/src/thunder/library/robot.h
@@ -204,7 +204,7 @@ namespace thunder_ns{
 			std::vector<fun_obj> get_functions(bool onlyNames = 1);
 			// std::vector<casadi::Function> getCasadiFunctions();
 			int add_function(std::string name, casadi::SX expr, std::vector<std::string> f_args, std::string descr = "", bool overwrite = true);
-			void generate_library(const std::string& savePath, const std::string& name_file, const bool SAVE_CASADI);
+			int generate_library(const std::string& savePath, const std::string& name_file, const bool SAVE_CASADI);
 
 	};
 
diff --git a/src/thunder/library/utils.h b/src/thunder/library/utils.h
index 03bfd7f..b682dfd 100644
--- a/src/thunder/library/utils.h
+++ b/src/thunder/library/utils.h
@@ -47,6 +47,10 @@ namespace thunder_ns{
 	void replace_all(std::string& str, const std::string& from_str, const std::string& to_str);
 	int add_bindings_template(const std::string file_path_cpp);
 	std::string get_ret_type(const fun_obj fun);
+	/* Read the whole file, throw an exception if it is not possible or the file is empty */
+	std::string read_file(const std::string& file_path);
+	/* Overwrite the file, return 0 if it is not possible */
+	int write_file(const std::string& file_path, const std::string& content);
 	/* Read the whole file and parse it, throw an exception if it is not possible */
 	YAML::Node load_yaml(const std::string& file_path);
 
diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 0af95b2..d87adf1 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1106,7 +1106,7 @@ namespace thunder_ns{
 		return 1;
 	}
 
-	void Robot::generate_library(const std::string& savePath, const std::string& name_file, const bool SAVE_CASADI){
+	int Robot::generate_library(const std::string& savePath, const std::string& name_file, const bool SAVE_CASADI){
 		// Options for c-code auto generation
 		casadi::Dict opts = casadi::Dict();
 		opts["cpp"] = true;
@@ -1122,6 +1122,17 @@ namespace thunder_ns{
 			// cout<<"fun: "<<f.second<<endl<<endl;
 		}
 		myCodeGen.generate(savePath);
+		// casadi does not report errors on the output files
+		std::string code = read_file(savePath + name_file + ".cpp");
+		std::string header = read_file(savePath + name_file + ".h");
+		bool complete = !header.empty() && header.back() == '\n' && code.find(myCodeGen.dump()) != std::string::npos;
+		for (const auto& f : casadi_fun) {
+			if (header.find("#define " + f.second.name() + "_SZ_W ") == std::string::npos) complete = false;
+		}
+		if (!complete) {
+			std::cerr << "Error while writing " << savePath + name_file << std::endl;
+			return 0;
+		}
 
 		if(SAVE_CASADI){
 			// Save CasADi functions
@@ -1130,8 +1141,10 @@ namespace thunder_ns{
 				// std::ofstream file(function_file, std::ios::binary);
 				f.second.save(function_file);
 				// file.close();
+				casadi::Function::load(function_file);	// throws an exception if the file is not complete
 			}
 		}
+		return 1;
 	}
 
 	int Robot::subs_symb_par(std::string par){
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 38c0c51..e394fac 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -125,11 +125,8 @@ namespace thunder_ns{
 			cerr << "error in file_h opening:" << file_path_h << endl;
 			return 0;
 		} else {
-			stringstream buffer_h;
-			buffer_h << file_h.rdbuf(); // read file_h on buffer_h
-			string file_content_h = buffer_h.str(); // file_h as string
-
 			file_h.close(); // close the file_h
+			string file_content_h = read_file(file_path_h); // file_h as string
 
 			// - change num_joints - //
 			string header = "THUNDERROBOT";
@@ -168,15 +165,13 @@ namespace thunder_ns{
 			replace_all(file_content_h, "/*#-FUNCTIONS_H-#*/", functions_string);
 
 			// - overwrite file_h - //
-			ofstream out_h(file_path_h);
-			out_h << file_content_h;
-			out_h.close();
+			if (!write_file(file_path_h, file_content_h)) return 0;
 		}
 
 		// --- file .cpp --- //
 		if(gen_python){
 			// - add bindings template - //
-			add_bindings_template(file_path_cpp);
+			if (!add_bindings_template(file_path_cpp)) return 0;
 		}
 
 		ifstream file_cpp(file_path_cpp); // open in reading mode
@@ -184,11 +179,8 @@ namespace thunder_ns{
 			cerr << "error in file_cpp opening:" << file_path_h << endl;
 			return 0;
 		} else {
-			stringstream buffer_cpp;
-			buffer_cpp << file_cpp.rdbuf(); // read file_cpp on buffer_cpp
-			string file_content_cpp = buffer_cpp.str(); // file_cpp as string
-
 			file_cpp.close(); // close the file_cpp
+			string file_content_cpp = read_file(file_path_cpp); // file_cpp as string
 
 			// - substitute 'from_robot' wiht 'to_robot' - //
 			replace_all(file_content_cpp, from_robot, to_robot);
@@ -247,9 +239,7 @@ namespace thunder_ns{
 			}
 			
 			// - overwrite file_cpp - //
-			ofstream out_cpp(file_path_cpp);
-			out_cpp << file_content_cpp;
-			out_cpp.close();
+			if (!write_file(file_path_cpp, file_content_cpp)) return 0;
 		}
 
 		return 1;
@@ -261,19 +251,14 @@ namespace thunder_ns{
 			cerr << "error in CMakeLists.txt template opening:" << file_path << endl;
 			return 0;
 		} else {
-			stringstream buffer_cmake;
-			buffer_cmake << file_cmake.rdbuf(); // read file_cmake on buffer_cmake
-			string file_content_cmake = buffer_cmake.str(); // file_cmake as string
-
 			file_cmake.close(); // close the file_cmake
+			string file_content_cmake = read_file(file_path); // file_cmake as string
 
 			// - substitute 'from_robot' wiht 'to_robot' - //
 			replace_all(file_content_cmake, from_robot, to_robot);
 
 			// - overwrite file_cmake - //
-			ofstream out_cmake(file_path);
-			out_cmake << file_content_cmake;
-			out_cmake.close();
+			if (!write_file(file_path, file_content_cmake)) return 0;
 		}
 		return 1;
 	}
@@ -343,20 +328,15 @@ PYBIND11_MODULE(thunder_robot_py, m) {
 			cerr << "error in file_cpp opening:" << file_path_cpp << endl;
 			return 0;
 		} else {
-			stringstream buffer_cpp;
-			buffer_cpp << file_cpp.rdbuf(); // read file_cpp on buffer_cpp
-			string file_content_cpp = buffer_cpp.str(); // file_cpp as string
-
 			file_cpp.close(); // close the file_cpp
+			string file_content_cpp = read_file(file_path_cpp); // file_cpp as string
 
 			// - insert bindings_template - //
 			replace_all(file_content_cpp, "/*#-OPTIONAL SPACE FOR PYTHON BINDINGS-#*/", bindings_template);
 			replace_all(file_content_cpp, "/*OPTIONAL PYBIND11 INCLUDE POINT*/", bindings_import);
 
 			// - overwrite file_cpp - //
-			ofstream out_cpp(file_path_cpp);
-			out_cpp << file_content_cpp;
-			out_cpp.close();
+			if (!write_file(file_path_cpp, file_content_cpp)) return 0;
 		}
 		return 1;
 	}
@@ -404,13 +384,28 @@ PYBIND11_MODULE(thunder_robot_py, m) {
 	// 	return str;
 	// }
 
-	YAML::Node load_yaml(const std::string& file_path){
+	std::string read_file(const std::string& file_path){
 		ifstream file(file_path);
 		stringstream buffer;
 		if (file.is_open()) buffer << file.rdbuf();
 		// also fails if the file is empty or it was not possible to read all of it
 		if (!file.is_open() || buffer.fail()) throw YAML::BadFile(file_path);
-		return YAML::Load(buffer);
+		return buffer.str();
+	}
+
+	int write_file(const std::string& file_path, const std::string& content){
+		ofstream file(file_path);
+		file << content;
+		file.close();
+		if (!file) {
+			cerr << "error in file writing: " << file_path << endl;
+			return 0;
+		}
+		return 1;
+	}
+
+	YAML::Node load_yaml(const std::string& file_path){
+		return YAML::Load(read_file(file_path));
 	}
 
 	// do not call replace often
diff --git a/src/thunder/thunder_main.cpp b/src/thunder/thunder_main.cpp
index b8ed7a8..acc6ebc 100755
--- a/src/thunder/thunder_main.cpp
+++ b/src/thunder/thunder_main.cpp
@@ -144,7 +144,10 @@ int main(int argc, char* argv[]){
 	// Generate library
 	// if( gen_command.get<bool>("casadi"))
 	// 	std::cout<<"Saving Casadi functions!"<<std::endl;
-	robot.generate_library(absolutePath, robot_name_gen, GEN_CASADI);
+	if (!robot.generate_library(absolutePath, robot_name_gen, GEN_CASADI)) {
+		cout<<"problem on generating the library"<<endl;
+		return 0;
+	}
 
 	// --- Write thunder_robot into generatedFiles --- //
 	std::filesystem::path sourcePath;
@@ -195,8 +198,10 @@ int main(int argc, char* argv[]){
 	// --- generate parameters files --- //
 	std::string par_file = absolutePath + robot_name + "_conf.yaml";
 	std::string par_REG_file = absolutePath + robot_name + "_par_REG.yaml";
-	robot.save_conf(par_file);
-	robot.save_par_REG(par_REG_file);
+	if (!robot.save_conf(par_file) || !robot.save_par_REG(par_REG_file)) {
+		cout<<"problem on saving the parameters"<<endl;
+		return 0;
+	}
 	// if (!genInertial_files(robot_name, nj, config_file, par_file, par_REG_file)){
 	// 	return 0;
 	// }
@@ -219,13 +224,13 @@ int main(int argc, char* argv[]){
 	
 	// --- copy generated files in thunder_robot project --- //
 	if(COPY_GEN_FLAG){
-		copy_to(robot_name, absolutePath, PATH_COPY_YAML, PATH_COPY_YAML, PATH_COPY_H, PATH_COPY_CPP);
+		if (!copy_to(robot_name, absolutePath, PATH_COPY_YAML, PATH_COPY_YAML, PATH_COPY_H, PATH_COPY_CPP)) return 0;
 		std::cout << "Copied to thunder_robot!" << std::endl;
 	}
 
 	// --- copy generated files in thunder_robot project --- //
 	if(COPY_GEN_CHRONO_FLAG){
-		copy_to(robot_name, absolutePath, PATH_COPY_CHRONO_YAML, PATH_COPY_CHRONO_YAML, PATH_COPY_CHRONO_H, PATH_COPY_CHRONO_CPP);
+		if (!copy_to(robot_name, absolutePath, PATH_COPY_CHRONO_YAML, PATH_COPY_CHRONO_YAML, PATH_COPY_CHRONO_H, PATH_COPY_CHRONO_CPP)) return 0;
 		std::cout << "Copied to thunder_robot_chrono!" << std::endl;
 	}
 
-- 
2.43.0


From c13eda8aeb47f127a5873cb43bc104151dd0e958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 11/29] fix: generation does not need the HOME variable

---
 src/thunder/thunder_main.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/thunder/thunder_main.cpp b/src/thunder/thunder_main.cpp
index acc6ebc..1f07b4a 100755
--- a/src/thunder/thunder_main.cpp
+++ b/src/thunder/thunder_main.cpp
@@ -156,9 +156,6 @@ int main(int argc, char* argv[]){
 	std::string thunder_robot_h_path;
 	std::string python_cmake_file;
 
-	// Get home/.local/share directory
-	std::string home = std::getenv("HOME");
-	// std::string template_path = home + "/.local/share/thunder_dynamics/thunder_robot_template/";
 	std::string template_path = "/usr/local/share/thunder_dynamics/thunder_robot_template/";
 
 	if (std::filesystem::is_directory(template_path)){
-- 
2.43.0


From 9c8e2530c90061ae8bfe321f2cb1578c1b0e182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 12/29] fix: generated functions receive only the symbolic
 entries of partially symbolic parameters

---
 src/thunder/src/utils.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index e394fac..937f8e9 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -209,6 +209,22 @@ namespace thunder_ns{
 				functions_string.append("\tthread_local double buffer["+size_str+"];\n"); // alignas("+size_str+") 
 				functions_string.append("\tthread_local long long p3[" + fun_name_gen + "_fun_SZ_IW];\n");
 				functions_string.append("\tthread_local double p4[" + fun_name_gen + "_fun_SZ_W];\n");
+				// parameters stored with their full size, the function needs only the symbolic ones
+				for (auto& arg : fun_args){
+					if (arg!="par_DYN" && arg!="par_Dl" && arg!="par_K" && arg!="par_D" && arg!="par_Dm" && arg!="par_Mm") continue;
+					std::vector<int> symb_flag = robot.symb[arg];
+					std::string symb_values;
+					int n_symb = 0;
+					for (int j=0; j<symb_flag.size(); j++){
+						if (!symb_flag[j]) continue;
+						symb_values.append((n_symb ? ", " : "") + arg + "(" + to_string(j) + ")");
+						n_symb++;
+					}
+					if (n_symb == symb_flag.size()) continue;
+					functions_string.append("\tEigen::VectorXd " + arg + "_symb(" + to_string(n_symb) + ");\n");
+					if (n_symb > 0) functions_string.append("\t" + arg + "_symb << " + symb_values + ";\n");
+					arg += "_symb";
+				}
 				// inputs
 				if (fun_args.size() == 0){
 					functions_string.append("\tconst double** input_ = nullptr;\n");
-- 
2.43.0


From 5dcce963b4c517458a8df090c8a5f7eda899af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 13/29] fix: genYAML does not announce files it could not
 generate

---
 src/genYAML/main_YAML.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/genYAML/main_YAML.cpp b/src/genYAML/main_YAML.cpp
index 762df04..43dd2fd 100644
--- a/src/genYAML/main_YAML.cpp
+++ b/src/genYAML/main_YAML.cpp
@@ -138,6 +138,10 @@ int main(){
                 xyzStr = origin["xyz"].as<std::string>();
                 std::istringstream xyzStream(xyzStr);            
                 xyzStream >> properties.xyz[0] >> properties.xyz[1] >> properties.xyz[2];
+                if (xyzStream.fail()) {
+                    std::cerr << "Wrong 'xyz' of " << linkName << std::endl;
+                    return 1;
+                }
             } else {
                 std::cerr << "Missing 'xyz' in the 'origin' node." << std::endl;
                 continue;
@@ -147,6 +151,10 @@ int main(){
                 rpyStr = origin["rpy"].as<std::string>();
                 std::istringstream rpyStream(rpyStr);            
                 rpyStream >> properties.rpy[0] >> properties.rpy[1] >> properties.rpy[2];
+                if (rpyStream.fail()) {
+                    std::cerr << "Wrong 'rpy' of " << linkName << std::endl;
+                    return 1;
+                }
             } else {
                 std::cerr << "Missing 'rpy' in the 'origin' node." << std::endl;
                 continue;
@@ -157,6 +165,13 @@ int main(){
         
     } catch (const YAML::Exception& e) {
         std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
+        return 1;
+    }
+
+    // the first link is the base, it is not used
+    if ((int)links_prop.size() < numTransform+1){
+        std::cerr << "Missing links in yaml/inertial.yaml" << std::endl;
+        return 1;
     }
 
     //-----------------------Convert inertial parameters from URDF to DH----------------------------//
@@ -186,6 +201,10 @@ int main(){
         std::ofstream fout(path_yaml_DH);
         fout << emitter.c_str();
         fout.close();
+        if (!fout) {
+            std::cerr << "Error while writing " << path_yaml_DH << std::endl;
+            return 1;
+        }
 
         std::cout << "Successfully generated YAML file of inertial parameter for DH parametrization"<<std::endl;
         std::cout<< " path: " << path_yaml_DH << std::endl;
@@ -202,6 +221,10 @@ int main(){
         std::ofstream fout(path_yaml_DH_DYN + ".yaml");
         fout << emitter.c_str();
         fout.close();
+        if (!fout) {
+            std::cerr << "Error while writing " << path_yaml_DH_DYN + ".yaml" << std::endl;
+            return 1;
+        }
         
         std::cout << "Successfully generated YAML file of inertial parameters for dynamics"<<std::endl;
         std::cout<< " path: " << path_yaml_DH_DYN + ".yaml" << std::endl;
@@ -255,9 +278,13 @@ int main(){
             std::ofstream fout(path_yaml_DH_REG + pp + ".yaml");
             fout << emitter.c_str();
             fout.close();
+            if (!fout) {
+                std::cerr << "Error while writing " << path_yaml_DH_REG + pp + ".yaml" << std::endl;
+                return 1;
+            }
 
             std::cout << "Successfully generated YAML file of inertial parameters for regressor"<<std::endl;
-            std::cout<< " path: " << path_yaml_DH_REG + "_p" + std::to_string((int)coeff_p[w]) + ".yaml"<< std::endl;
+            std::cout<< " path: " << path_yaml_DH_REG + pp + ".yaml"<< std::endl;
 
         } catch (const YAML::Exception& e) {
             std::cerr << "Error while generating YAML: " << e.what() << std::endl;
-- 
2.43.0


From e5a190499034c4fda2e09c39ed032ed384e6d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 14/29] fix: genInertial_files reads link friction and reports
 incomplete input or output

---
 src/thunder/src/genYaml.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/thunder/src/genYaml.cpp b/src/thunder/src/genYaml.cpp
index 093daa6..b28619c 100644
--- a/src/thunder/src/genYaml.cpp
+++ b/src/thunder/src/genYaml.cpp
@@ -52,6 +52,7 @@ namespace thunder_ns{
 			int link_index = 0;
 			for (const auto& node : dynamics) {
 
+				if (link_index==num_joints) break;
 				YAML::Node inertial = node.second["inertial"];
 				LinkProp properties;
 				std::string linkName = node.first.as<std::string>();
@@ -75,7 +76,7 @@ namespace thunder_ns{
 				if (Dl_order){
 					properties.Dl.resize(Dl_order);
 					YAML::Node friction = node.second["friction"];
-					std::vector<double> Dl = node.second["Dl"].as<std::vector<double>>();
+					std::vector<double> Dl = friction["Dl"].as<std::vector<double>>();
 					properties.Dl = Dl;
 					// std::cout<<"Dl_read: " << Dl << std::endl;
 					// for (int j=0; j<Dl_order; j++){
@@ -93,6 +94,10 @@ namespace thunder_ns{
 				links_prop_DH[link_index] = properties;
 				link_index ++;
 			}
+			if (link_index != num_joints) {
+				std::cerr << "Missing dynamics of some links in " << config_file << std::endl;
+				return 0;
+			}
 
 			// --- obtain parameters for regressor --- //
 			for(int i=0; i<num_joints; i++){
@@ -124,6 +129,10 @@ namespace thunder_ns{
 				std::ofstream fout(out_REG_file);
 				fout << emitter.c_str();
 				fout.close();
+				if (!fout) {
+					std::cerr << "Error while writing " << out_REG_file << std::endl;
+					return 0;
+				}
 			} catch (const YAML::Exception& e) {
 				std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 				return 0;
@@ -135,6 +144,10 @@ namespace thunder_ns{
 				std::ofstream fout(out_DYN_file);
 				fout << emitter.c_str();
 				fout.close();
+				if (!fout) {
+					std::cerr << "Error while writing " << out_DYN_file << std::endl;
+					return 0;
+				}
 			} catch (const YAML::Exception& e) {
 				std::cerr << "Error while generating YAML: " << e.what() << std::endl;
 				return 0;
-- 
2.43.0


From a27d40b02ec5a219ad22e6ee05c9d21a587174ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 15/29] fix: Robot::set_arg refuses a value of the wrong size

---
 src/thunder/src/robot.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index d87adf1..33946a9 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -415,6 +415,11 @@ namespace thunder_ns{
 
 	int Robot::set_arg(std::string name, Eigen::VectorXd value){
 		int sz = value.size();
+		auto var = model.find(name);
+		if ((var != model.end()) && (var->second.numel() != sz)){
+			std::cout<<"in setArguments: invalid dimensions of arguments\n";
+			return 0;
+		}
 		casadi::SX& arg = args[name];
 		arg = casadi::SX::zeros(sz);
 		for (int i=0; i<sz; i++){
-- 
2.43.0


From 927069b3605e6c1ef68c76dae55082f4f6adb3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 16/29] fix: generated load_conf keeps the parameters that were
 left symbolic at generation

---
 src/thunder/src/utils.cpp                     |  8 +++
 .../thunder_robot_template/thunder_robot.cpp  | 54 +++++++------------
 2 files changed, 26 insertions(+), 36 deletions(-)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 937f8e9..f3d8919 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -185,6 +185,14 @@ namespace thunder_ns{
 			// - substitute 'from_robot' wiht 'to_robot' - //
 			replace_all(file_content_cpp, from_robot, to_robot);
 
+			// - symbolic parameters - //
+			for (std::string par : {"DHtable", "world2L0", "Ln2EE", "gravity"}){
+				std::string symb_str = "{";
+				for (int v : robot.symb["par_" + par]) symb_str += (symb_str == "{" ? "" : ", ") + to_string(v);
+				symb_str += "}";
+				replace_all(file_content_cpp, "/*#-" + par + "_symb-#*/", symb_str);
+			}
+
 			// - insert functions - //
 			string functions_string = "\n";
 			string functions_pybindings = "";
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index b92ecfd..8b01d09 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -22,6 +22,13 @@ thunder_robot::thunder_robot(){
 	resizeVariables();
 }
 
+// number of the parameters marked as symbolic
+static int numSymb(const std::vector<int>& symb){
+	int num = 0;
+	for (int v : symb) if (v) num++;
+	return num;
+}
+
 void thunder_robot::resizeVariables(){
 	q = Eigen::VectorXd::Zero(n_joints);
 	dq = Eigen::VectorXd::Zero(n_joints);
@@ -42,20 +49,15 @@ void thunder_robot::resizeVariables(){
 	par_D = Eigen::VectorXd::Zero(D_order*numElasticJoints);
 	par_Dm = Eigen::VectorXd::Zero(Dm_order*numElasticJoints);
 	par_Mm = Eigen::VectorXd::Zero(numElasticJoints);
-	par_DHtable = Eigen::VectorXd::Zero(n_joints*4);
-	par_world2L0 = Eigen::VectorXd::Zero(6);
-	par_Ln2EE = Eigen::VectorXd::Zero(6);
-	par_gravity = Eigen::VectorXd::Zero(3);
-	DHtable_symb.resize(n_joints*4);
-	for (int i=0; i<n_joints*4; i++) DHtable_symb[i] = 0;
-	gravity_symb.resize(3);
-	for (int i=0; i<3; i++) gravity_symb[i] = 0;
-	world2L0_symb.resize(6);
-	Ln2EE_symb.resize(6);
-	for (int i=0; i<6; i++){
-		world2L0_symb[i] = 0;
-		Ln2EE_symb[i] = 0;
-	}
+	// flags of the parameters left symbolic when the library was generated
+	DHtable_symb = /*#-DHtable_symb-#*/;
+	world2L0_symb = /*#-world2L0_symb-#*/;
+	Ln2EE_symb = /*#-Ln2EE_symb-#*/;
+	gravity_symb = /*#-gravity_symb-#*/;
+	par_DHtable = Eigen::VectorXd::Zero(numSymb(DHtable_symb));
+	par_world2L0 = Eigen::VectorXd::Zero(numSymb(world2L0_symb));
+	par_Ln2EE = Eigen::VectorXd::Zero(numSymb(Ln2EE_symb));
+	par_gravity = Eigen::VectorXd::Zero(numSymb(gravity_symb));
 }
 
 int thunder_robot::get_numJoints() {return n_joints;};
@@ -389,7 +391,7 @@ Eigen::VectorXd thunder_robot::load_par_REG(std::string file_path, bool update_D
 void thunder_robot::load_conf(std::string file_path, bool update_REG){
 	// to be restored if the file is not valid
 	const auto backup = std::make_tuple(par_DHtable, par_world2L0, par_Ln2EE, par_gravity, par_DYN, par_REG, par_Dl,
-		par_K, par_D, par_Dm, par_Mm, DHtable_symb, world2L0_symb, Ln2EE_symb, gravity_symb);
+		par_K, par_D, par_Dm, par_Mm);
 	try {
 		YAML::Node config = load_yaml(file_path);
 		if (!config["kinematics"] && !config["Base_to_L0"] && !config["Ln_to_EE"] && !config["dynamics"] && !config["gravity"] && !config["elastic"]){
@@ -403,11 +405,6 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 			YAML::Node kinematics = config["kinematics"];
 			std::vector<double> dh_vect = kinematics["DH"].as<std::vector<double>>();
 			// par_DHtable = Eigen::Map<Eigen::VectorXd>(&dh_vect[0], nj*4).reshaped<Eigen::RowMajor>(nj, 4);
-			if (kinematics["symb"]){
-				DHtable_symb = kinematics["symb"].as<std::vector<int>>();
-			} else {
-				// no parameters here
-			}
 			int sz = dh_vect.size();
 			if (sz != n_joints*4) throw std::runtime_error("wrong size of DH table in " + file_path);
 			// par_DHtable.resize(sz);
@@ -429,11 +426,6 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		if (config["Base_to_L0"]){
 			par_world2L0.resize(6);
 			YAML::Node frame_base = config["Base_to_L0"];
-			if (frame_base["symb"]){
-				world2L0_symb = frame_base["symb"].as<std::vector<int>>();
-			} else {
-				// no parameters here
-			}
 			// int sz = 0;
 			// for (int v : world2L0_symb) if (v) sz++;
 			// std::cout << "sz: " << sz << std::endl;
@@ -460,11 +452,6 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		if (config["Ln_to_EE"]){
 			par_Ln2EE.resize(6);
 			YAML::Node frame_ee = config["Ln_to_EE"];
-			if (frame_ee["symb"]){
-				Ln2EE_symb = frame_ee["symb"].as<std::vector<int>>();
-			} else {
-				// no parameters here
-			}
 			// int sz = 0;
 			// for (int v : Ln2EE_symb) if (v) sz++;
 			// std::cout << "sz: " << sz << std::endl;
@@ -526,11 +513,6 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		if (config["gravity"]){
 			par_gravity.resize(3);
 			YAML::Node gravity_node = config["gravity"];
-			if (gravity_node["symb"]){
-				gravity_symb = gravity_node["symb"].as<std::vector<int>>();
-			} else {
-				// no parameters here
-			}
 			// int sz = 0;
 			// for (int v : gravity_symb) if (v) sz++;
 			std::vector<double> grav = gravity_node["value"].as<std::vector<double>>();
@@ -579,7 +561,7 @@ void thunder_robot::load_conf(std::string file_path, bool update_REG){
 		}
 	} catch (const std::exception& e) {
 		std::tie(par_DHtable, par_world2L0, par_Ln2EE, par_gravity, par_DYN, par_REG, par_Dl,
-			par_K, par_D, par_Dm, par_Mm, DHtable_symb, world2L0_symb, Ln2EE_symb, gravity_symb) = backup;
+			par_K, par_D, par_Dm, par_Mm) = backup;
 		std::cerr << "Error while parsing YAML: " << e.what() << std::endl;
 	}
 }
-- 
2.43.0


From b3488cb833d639ffb23315bcbac4630fc2f1bd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 17/29] fix: Robot::load_par refuses a file without parameters

---
 src/thunder/src/robot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 33946a9..66ba4e8 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -845,6 +845,7 @@ namespace thunder_ns{
 		try {
 			// load yaml
 			YAML::Node yamlFile = load_yaml(par_file);
+			if (!yamlFile.IsMap()) throw std::runtime_error("no parameters in " + par_file);
 			if (par_list.size() == 0){
 				for (const auto& node : yamlFile) par_list.push_back(node.first.as<std::string>());
 			}
-- 
2.43.0


From bbb517278cc16d3f76509603f2090fb7839f74ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 18/29] fix: generate_library compares the whole header with
 what it should contain

---
 src/thunder/src/robot.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 66ba4e8..8f4c426 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1131,10 +1131,8 @@ namespace thunder_ns{
 		// casadi does not report errors on the output files
 		std::string code = read_file(savePath + name_file + ".cpp");
 		std::string header = read_file(savePath + name_file + ".h");
-		bool complete = !header.empty() && header.back() == '\n' && code.find(myCodeGen.dump()) != std::string::npos;
-		for (const auto& f : casadi_fun) {
-			if (header.find("#define " + f.second.name() + "_SZ_W ") == std::string::npos) complete = false;
-		}
+		std::string expected_header = myCodeGen.header.str();
+		bool complete = code.find(myCodeGen.dump()) != std::string::npos && header.find(expected_header) != std::string::npos;
 		if (!complete) {
 			std::cerr << "Error while writing " << savePath + name_file << std::endl;
 			return 0;
-- 
2.43.0


From d1049435165a9a3b328ad3e5ef36b9a63678cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 19/29] fix: generate_library compares the saved functions with
 what they should contain

---
 src/thunder/src/robot.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 8f4c426..bd60453 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1145,7 +1145,13 @@ namespace thunder_ns{
 				// std::ofstream file(function_file, std::ios::binary);
 				f.second.save(function_file);
 				// file.close();
-				casadi::Function::load(function_file);	// throws an exception if the file is not complete
+				// casadi does not report errors on the output files
+				casadi::StringSerializer serializer;
+				serializer.pack(f.second);
+				if (read_file(function_file) != serializer.encode()) {
+					std::cerr << "Error while writing " << function_file << std::endl;
+					return 0;
+				}
 			}
 		}
 		return 1;
-- 
2.43.0


From 67794b0a3b89324fa6eec46d3885242728f2cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 20/29] fix: rpyRot is the rotation of roll, pitch and yaw

The (0,2) entry had the wrong sign of sin(yaw)*sin(roll), so the inertia of a
link whose source frame has both angles was transformed by a matrix that is not
a rotation.
---
 src/genYAML/src/urdf2dh_inertial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/genYAML/src/urdf2dh_inertial.cpp b/src/genYAML/src/urdf2dh_inertial.cpp
index 7cbbf2d..bc836fe 100644
--- a/src/genYAML/src/urdf2dh_inertial.cpp
+++ b/src/genYAML/src/urdf2dh_inertial.cpp
@@ -94,7 +94,7 @@ namespace thunder_ns{
         //template R yaw-pitch-roll
         rotTr(0,0)=cy*cp;
         rotTr(0,1)=cy*sp*sr-sy*cr;
-        rotTr(0,2)=cy*sp*cr-sy*sr;
+        rotTr(0,2)=cy*sp*cr+sy*sr;
         rotTr(1,0)=sy*cp;
         rotTr(1,1)=sy*sp*sr+cy*cr;
         rotTr(1,2)=sy*sp*cr-cy*sr;
-- 
2.43.0


From 07e0c0a3a4de313e2a2a7c62f6e3cd0f5cb7a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 21/29] fix: the other copies of rpyRot are the rotation of
 roll, pitch and yaw

Same wrong sign as in genYAML: FrameOffset, utils and the robot template.
---
 src/thunder/src/FrameOffset.cpp                      | 4 ++--
 src/thunder/src/utils.cpp                            | 2 +-
 src/thunder/thunder_robot_template/thunder_robot.cpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thunder/src/FrameOffset.cpp b/src/thunder/src/FrameOffset.cpp
index 9ade626..7860700 100644
--- a/src/thunder/src/FrameOffset.cpp
+++ b/src/thunder/src/FrameOffset.cpp
@@ -55,7 +55,7 @@ namespace thunder_ns{
 		//template rotation yaw-pitch-roll
 		R(0,0)=cy*cp;
 		R(0,1)=cy*sp*sr-sy*cr;
-		R(0,2)=cy*sp*cr-sy*sr;
+		R(0,2)=cy*sp*cr+sy*sr;
 		R(1,0)=sy*cp;
 		R(1,1)=sy*sp*sr+cy*cr;
 		R(1,2)=sy*sp*cr-cy*sr;
@@ -94,7 +94,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index f3d8919..14b21f1 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -77,7 +77,7 @@ namespace thunder_ns{
 		//template R yaw-pitch-roll
 		rotTr(0,0)=cy*cp;
 		rotTr(0,1)=cy*sp*sr-sy*cr;
-		rotTr(0,2)=cy*sp*cr-sy*sr;
+		rotTr(0,2)=cy*sp*cr+sy*sr;
 		rotTr(1,0)=sy*cp;
 		rotTr(1,1)=sy*sp*sr+cy*cr;
 		rotTr(1,2)=sy*sp*cr-cy*sr;
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index 8b01d09..f8a111b 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -830,7 +830,7 @@ Eigen::Matrix3d thunder_robot::rpyRot(const std::vector<double> rpy){
 	//template R yaw-pitch-roll
 	rotTr(0,0)=cy*cp;
 	rotTr(0,1)=cy*sp*sr-sy*cr;
-	rotTr(0,2)=cy*sp*cr-sy*sr;
+	rotTr(0,2)=cy*sp*cr+sy*sr;
 	rotTr(1,0)=sy*cp;
 	rotTr(1,1)=sy*sp*sr+cy*cr;
 	rotTr(1,2)=sy*sp*cr-cy*sr;
-- 
2.43.0


From 17f4f0e9d9742356c2ecc3e8df12f3cdebca6d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:44 +0000
Subject: [PATCH 22/29] fix: add_function accepts inputs without symbolic
 selectivity

Inputs such as par_REG have no selectivity and, after update_symb_parameters(), partially
symbolic parameters are already reduced: the flags were read out of bounds or
applied to the wrong entries.
---
 src/thunder/src/robot.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index bd60453..2d4dc1c 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1076,17 +1076,19 @@ namespace thunder_ns{
 				// int sz_original = args[arg].size();
 				// std::cout << "fun: " << f_name << std::endl;
 				// std::cout << "arg: " << arg << std::endl;
-				std::vector<int>& symb_flag = symb[arg];
+				const std::vector<int> symb_flag = symb.count(arg) ? symb.at(arg) : std::vector<int>();
 				std::vector<casadi::SX> par_symb;
-				casadi::SX& par_model = model[arg];
+				const casadi::SX par_model = model.count(arg) ? model.at(arg) : casadi::SX();
 				// cout << "model[arg]: " << par_model << endl;
 				// cout << "symb_flag: " << symb_flag << endl;
 				int sz_original = par_model.size().first;
 				// casadi::SX par_model_new = casadi::SX::zeros(sz_original);
 				// casadi::SX new_par(sz_original,1);
 				int sz = 0;
+				// no selectivity, or already applied by update_symb_parameters(): every entry is an argument
+				bool all_symb = (symb_flag.size() != sz_original);
 				for (int i=0; i<sz_original; i++){
-					if (symb_flag[i]){
+					if (all_symb || symb_flag[i]){
 						par_symb.push_back(par_model(i));
 						// par_model_new(sz) = par_model(i);
 						sz++;
-- 
2.43.0


From 1a7732140cad5d45f99ed113b6b02078a2b0f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:44 +0000
Subject: [PATCH 23/29] fix: a function that cannot be added leaves the robot
 unchanged

---
 src/thunder/src/robot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 2d4dc1c..4936c98 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1062,10 +1062,6 @@ namespace thunder_ns{
 			// key already exists
 			return 0;
 		} else {
-			model[f_name] = expr;
-			fun_args[f_name] = f_args;
-			fun_descr[f_name] = descr;
-
 			casadi::SXVector inputs(f_args.size());
 			// for (const auto& arg : f_args) {
 			// 	inputs.push_back(model[arg]);
@@ -1108,6 +1104,10 @@ namespace thunder_ns{
 
 			casadi::Function fun(robotName+"_"+f_name+"_fun", inputs, {densify(expr)});
 			// cout<<"fun: "<<fun<<endl;
+			// only a complete function becomes part of the robot
+			model[f_name] = expr;
+			fun_args[f_name] = f_args;
+			fun_descr[f_name] = descr;
 			casadi_fun[f_name] = fun;
 		}
 
-- 
2.43.0


From d1f9f6b07005620201a00dbcb864774d67f91750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 24/29] fix: descriptions of functions do not break the
 generated code

---
 src/thunder/src/utils.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/thunder/src/utils.cpp b/src/thunder/src/utils.cpp
index 14b21f1..be627f8 100755
--- a/src/thunder/src/utils.cpp
+++ b/src/thunder/src/utils.cpp
@@ -103,6 +103,13 @@ namespace thunder_ns{
 		return I;
 	}
 
+	// description of a function as it can be written in a comment
+	static std::string one_line(std::string text){
+		replace_all(text, "\r", " ");
+		replace_all(text, "\n", " ");
+		return text;
+	}
+
 	int change_to_robot(const string from_robot, const string to_robot, Robot& robot, const string file_path_h, const string file_path_cpp, const bool gen_python){
 		
 		// - get parameters from robot - //
@@ -159,7 +166,7 @@ namespace thunder_ns{
 			// - insert functions - //
 			string functions_string = "\n";
 			for (int i=0; i<functions.size(); i++){
-				functions_string.append("\t\t// - " + functions[i].description + " - //\n");
+				functions_string.append("\t\t// - " + one_line(functions[i].description) + " - //\n");
 				functions_string.append("\t\t"+get_ret_type(functions[i])+" get_" + functions[i].name + "();\n\n");
 			}
 			replace_all(file_content_h, "/*#-FUNCTIONS_H-#*/", functions_string);
@@ -209,7 +216,7 @@ namespace thunder_ns{
 				// }
 				// other parts
 				string ret_type = get_ret_type(functions[i]);
-				functions_string.append("// - " + functions[i].description + " - //\n");
+				functions_string.append("// - " + one_line(functions[i].description) + " - //\n");
 				functions_string.append(ret_type + " thunder_" + to_robot + "::" + fun_name + "(){\n");
 				// functions_string.append("\tEigen::MatrixXd out;\n");
 				// functions_string.append("\tout.resize("+to_string(out_size[0])+","+to_string(out_size[1])+");\n");
@@ -250,8 +257,12 @@ namespace thunder_ns{
 				functions_string.append("}\n\n");
 
 				// pybindings
-				if(gen_python)
-					functions_pybindings.append("\t\t.def(\"" + fun_name + "\", &thunder_" + to_robot + "::" + fun_name + ", \""+ functions[i].description +"\")\n");
+				if(gen_python){
+					std::string doc = one_line(functions[i].description);
+					replace_all(doc, "\\", "\\\\");
+					replace_all(doc, "\"", "\\\"");
+					functions_pybindings.append("\t\t.def(\"" + fun_name + "\", &thunder_" + to_robot + "::" + fun_name + ", \""+ doc +"\")\n");
+				}
 			}
 			replace_all(file_content_cpp, "/*#-FUNCTIONS_CPP-#*/", functions_string);
 
-- 
2.43.0


From eb2a472bb1b1ce6d7dc03df4029de7373ceff59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 25/29] fix: converting the linear parameters of a massless
 link gave NaN

---
 src/thunder/src/robot.cpp                            | 1 +
 src/thunder/thunder_robot_template/thunder_robot.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 4936c98..9374692 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -1002,6 +1002,7 @@ namespace thunder_ns{
 			Eigen::VectorXd p_reg = param_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK);
 			double mass = p_reg(0);
 			Eigen::Vector3d CoM = {p_reg(1)/mass, p_reg(2)/mass, p_reg(3)/mass};
+			if (mass == 0) CoM.setZero();	// massless link, avoid 0/0
 			Eigen::Matrix3d I_tmp = mass * (hat(CoM).transpose() * hat(CoM));
 			Eigen::Matrix<double, 6, 1> I_tmp_v;
 			I_tmp_v << I_tmp(0,0), I_tmp(0,1), I_tmp(0,2), I_tmp(1,1), I_tmp(1,2), I_tmp(2,2);
diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index f8a111b..d12377a 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -178,6 +178,7 @@ void thunder_robot::update_inertial_DYN(){
 		Eigen::VectorXd p_reg = par_REG.segment(STD_PAR_LINK*i, STD_PAR_LINK);
 		double mass = p_reg(0);
 		Eigen::Vector3d CoM = {p_reg(1)/mass, p_reg(2)/mass, p_reg(3)/mass};
+		if (mass == 0) CoM.setZero();	// massless link, avoid 0/0
 		Eigen::Matrix3d I_tmp = mass * hat(CoM) * hat(CoM).transpose();
 		Eigen::Matrix<double, 6, 1> I_tmp_v;
 		I_tmp_v << I_tmp(0,0), I_tmp(0,1), I_tmp(0,2), I_tmp(1,1), I_tmp(1,2), I_tmp(2,2);
-- 
2.43.0


From 4fd64b2af361badb1f7349f4177e8943b164b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 26/29] fix: refuse a kinematic table of the wrong shape
 instead of aborting

---
 src/thunder/thunder_robot_template/thunder_robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thunder/thunder_robot_template/thunder_robot.cpp b/src/thunder/thunder_robot_template/thunder_robot.cpp
index d12377a..1ac7aa0 100755
--- a/src/thunder/thunder_robot_template/thunder_robot.cpp
+++ b/src/thunder/thunder_robot_template/thunder_robot.cpp
@@ -264,7 +264,7 @@ void thunder_robot::set_par_Dl(const Eigen::VectorXd& par_){
 }
 
 void thunder_robot::set_par_DHtable(const Eigen::MatrixXd& par_){
-	if(par_.size() == par_DHtable.size()){
+	if(par_.rows() == par_DHtable.size() && par_.cols() == 1){
 		par_DHtable = par_;
 	} else{
 		std::cout<<"in setArguments: invalid dimensions of arguments\n";
-- 
2.43.0


From a7187c83c9796e999d60ab91386e657a55ace9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 27/29] fix: refuse base and tool frames with a wrong number of
 elements

---
 src/thunder/src/robot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 9374692..93a1045 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -218,6 +218,10 @@ namespace thunder_ns{
 			};
 			check_size("par_DHtable", dh_vect.size(), 4*nj);
 			check_size("par_gravity", gravity_vect.size(), 3);
+			check_size("par_world2L0 tr", Base_to_L0.translation.size(), 3);
+			check_size("par_world2L0 ypr", Base_to_L0.ypr.size(), 3);
+			check_size("par_Ln2EE tr", Ln_to_EE.translation.size(), 3);
+			check_size("par_Ln2EE ypr", Ln_to_EE.ypr.size(), 3);
 			check_size("par_DHtable symb", this->symb["par_DHtable"].size(), 4*nj);
 			check_size("par_world2L0 symb", this->symb["par_world2L0"].size(), 6);
 			check_size("par_Ln2EE symb", this->symb["par_Ln2EE"].size(), 6);
-- 
2.43.0


From f7094e070152bab8700b5f108b8ca61cf681daaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 28/29] fix: refuse a robot without joints

---
 src/thunder/src/robot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thunder/src/robot.cpp b/src/thunder/src/robot.cpp
index 93a1045..86db102 100644
--- a/src/thunder/src/robot.cpp
+++ b/src/thunder/src/robot.cpp
@@ -57,6 +57,7 @@ namespace thunder_ns{
 			// ---- Basic Robot Properties ---- //
 			nj = config_file["num_joints"].as<int>();
 			this->numJoints = nj;
+			if (nj < 1) throw std::runtime_error("A robot needs at least one joint.");
 			this->jointsType = config_file["type_joints"].as<std::vector<std::string>>();
 
 			if ((int)this->jointsType.size() != this->numJoints) {
-- 
2.43.0


From 267da772a0e911ef531712528840957a65a30983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:22 +0000
Subject: [PATCH 29/29] fix: a link without a position no longer shifts the
 converted links

---
 src/genYAML/main_YAML.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/genYAML/main_YAML.cpp b/src/genYAML/main_YAML.cpp
index 43dd2fd..6d17d56 100644
--- a/src/genYAML/main_YAML.cpp
+++ b/src/genYAML/main_YAML.cpp
@@ -144,7 +144,7 @@ int main(){
                 }
             } else {
                 std::cerr << "Missing 'xyz' in the 'origin' node." << std::endl;
-                continue;
+                return 1;
             }
 
             if (origin["rpy"]) {
@@ -157,7 +157,7 @@ int main(){
                 }
             } else {
                 std::cerr << "Missing 'rpy' in the 'origin' node." << std::endl;
-                continue;
+                return 1;
             }
 
             links_prop.push_back(properties);
-- 
2.43.0

