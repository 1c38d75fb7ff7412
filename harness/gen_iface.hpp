#pragma once
#include "common.hpp"
struct Any {
	virtual ~Any() {}
	virtual std::shared_ptr<Any> clone() const = 0;
	virtual void call(drv::Line& l) = 0;			// one operation, writes one record
	virtual Eigen::MatrixXd get(const std::string& f) = 0;
	virtual void set(const std::string& what, const Eigen::VectorXd& v) = 0;
	virtual void load(const std::string& conf) = 0;
	virtual std::vector<std::string> names() const = 0;
	virtual Eigen::MatrixXd act(const std::string& op, const std::string& arg, const Eigen::VectorXd& v) = 0;	// other operations, without records
};
typedef std::shared_ptr<Any> (*Factory)();
std::map<std::string, Factory>& factories();
struct Reg { Reg(const char* n, Factory f) { factories()[n] = f; } };
