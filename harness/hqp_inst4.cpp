#include "hqp_driver.hpp"
namespace hqp { std::unique_ptr<Driver> make4(const Pars& p) { return std::unique_ptr<Driver>(new DriverT<16, 6, 4>(p)); } }
