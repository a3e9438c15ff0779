// Query driver: every class of the library that owns a mutex; parsed with THREAD_SAFE, never linked or run.
#include <carl/numbers/numbers.h>
#include <carl/util/Common.h>
#include <carl/util/IDPool.h>
#include <carl/util/IDGenerator.h>
#include <carl/core/VariablePool.cpp>
#include <carl/core/MonomialPool.cpp>
#include <carl/core/Monomial.cpp>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/util/TermAdditionManager.h>
#include <carl/util/Cache.h>
#include <carl/formula/ConstraintPool.h>
#include <carl/formula/bitvector/BVTermPool.h>
#include <carl/formula/bitvector/BVTermContent.h>
#include <carl/formula/bitvector/BVConstraintPool.h>
#include <carl/formula/bitvector/BVConstraint.h>
#include <carl/formula/bitvector/BVValue.cpp>
#include <carl/formula/bitvector/BVTerm.cpp>
#include <carl/formula/bitvector/BVTermPool.cpp>
#include <carl/formula/bitvector/BVConstraint.cpp>
#include <carl/formula/bitvector/BVConstraintPool.cpp>
using Pol = carl::MultivariatePolynomial<mpq_class>;
template class carl::Pool<carl::BVTermContent>;
template class carl::Pool<carl::BVConstraint>;
template class carl::TermAdditionManager<Pol, Pol::OrderedBy>;
template class carl::ConstraintPool<Pol>;
