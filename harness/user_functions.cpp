// compute_userDefined of the harness: adds the functions that the configuration lists
#include "userDefined.h"
#include "expr.hpp"
#include <sstream>

namespace thunder_ns {
	int compute_userDefined(Robot& robot) {
		const YAML::Node conf = robot.config_yaml;
		if (conf["user_example"]) std::cout << "USER example " << compute_example_fun(robot) << std::endl;
		if (!conf["user_functions"]) return 0;
		for (const auto& text : conf["user_functions"]) {
			std::istringstream in(text.as<std::string>());
			drv::Line l;
			drv::read_line(in, l);
			std::string name = l.s();
			bool over = l.i();
			std::string descr = l.s();
			auto args = l.list();
			std::string r;
			try {
				casadi::SX e = expr(robot, l);
				r = std::to_string(robot.add_function(name, e, args, descr, over));
			} catch (const std::logic_error& e) { throw; }
			catch (const std::exception& e) { r = "EXC"; }
			std::cout << "USER " << name << " " << r << std::endl;
		}
		return 0;
	}
}
