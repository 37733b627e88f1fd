#include "hqp.hpp"
namespace hqp { std::unique_ptr<Driver> make4(const Pars&); std::unique_ptr<Driver> make8(const Pars&);
std::unique_ptr<Driver> make(int w, const Pars& p) { return w ? make8(p) : make4(p); } }
