// instantiates the templates whose bodies are put under contract (parsed only, never linked)
#include <bats.hpp>
template class ModP<int,3>; template class ModP<int,2>; template class Rational<int>;
void use(){ ff_inv<int,3>(1); sgn(3); isprime(3); }
