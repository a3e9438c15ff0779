// Query driver: id generators; parsed only, never linked or run.
#include <cassert>
#include <carl/util/IDGenerator.h>
#include <carl/util/IDPool.h>
using G = carl::IDGenerator;
using P = carl::IDPool;
std::size_t q_gget(G& g) { return g.get(); }
void q_gfree(G& g, std::size_t i) { g.free(i); }
std::size_t q_gnext(const G& g) { return g.nextID(); }
void q_gclear(G& g) { g.clear(); }
std::size_t q_pget(P& g) { return g.get(); }
void q_pfree(P& g, std::size_t i) { g.free(i); }
std::size_t q_plargest(const P& g) { return g.largestID(); }
std::size_t q_psize(const P& g) { return g.size(); }
void q_pclear(P& g) { g.clear(); }
G* q_gmk() { return new G(); }
P* q_pmk() { return new P(); }
