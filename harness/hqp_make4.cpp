#include "hqp.hpp"
namespace hqp { std::unique_ptr<Driver> make4(const Pars&); std::unique_ptr<Driver> make(int, const Pars& p) { return make4(p); } }
