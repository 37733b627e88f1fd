#include "hqp_driver.hpp"
namespace hqp { std::unique_ptr<Driver> make8(const Pars& p) { return std::unique_ptr<Driver>(new DriverT<24, 6, 8>(p)); } }
