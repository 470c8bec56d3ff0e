// Translation unit that makes the whole public API of the (header-only) library visible to the
// analyser.  Nothing here is ever executed: the unit is only lowered to LLVM IR and inspected.
// Every entry point is a plain call of the public API, wrapped in a function of our own name.
#include "dd/Export.hpp"
#include "dd/Package.hpp"

using namespace dd;
// the default configuration with the density-matrix and noise tables enabled
struct FullConfig: public DDPackageConfig {
    static constexpr std::size_t CT_DM_NOISE_NBUCKET           = 4096U;
    static constexpr std::size_t UT_DM_NBUCKET                 = 32768U;
    static constexpr std::size_t UT_DM_INITIAL_ALLOCATION_SIZE = 2048U;
    static constexpr std::size_t CT_DM_DM_MULT_NBUCKET         = 16384U;
    static constexpr std::size_t CT_DM_ADD_NBUCKET             = 16384U;
    static constexpr std::size_t STOCHASTIC_CACHE_OPS          = 64U;
};
using Pkg = Package<FullConfig>;

#define ENTRY extern "C" __attribute__((used, noinline))

namespace api {
    using V = vEdge;
    using M = mEdge;
    using D = dEdge;
} // namespace api

// clang-format off
extern "C" {
// ---- construction -----------------------------------------------------------------------------
ENTRY void e_pkg_ctor(void* p, std::size_t n) { new (p) Pkg(n); }
ENTRY void e_pkg_resize(Pkg& p, std::size_t n) { p.resize(n); }
ENTRY void e_pkg_reset(Pkg& p) { p.reset(); }
ENTRY void e_pkg_clearUniqueTables(Pkg& p) { p.clearUniqueTables(); }
ENTRY void e_pkg_clearComputeTables(Pkg& p) { p.clearComputeTables(); }
ENTRY bool e_pkg_garbageCollect(Pkg& p, bool f) { return p.garbageCollect(f); }

ENTRY void e_makeZeroDensityOperator(dEdge& r, Pkg& p, QubitCount n) { r = p.makeZeroDensityOperator(n); }
ENTRY void e_makeZeroState(vEdge& r, Pkg& p, QubitCount n, std::size_t s) { r = p.makeZeroState(n, s); }
ENTRY void e_makeBasisState_bool(vEdge& r, Pkg& p, QubitCount n, const std::vector<bool>& st, std::size_t s) { r = p.makeBasisState(n, st, s); }
ENTRY void e_makeBasisState_bs(vEdge& r, Pkg& p, QubitCount n, const std::vector<BasisStates>& st, std::size_t s) { r = p.makeBasisState(n, st, s); }
ENTRY void e_makeStateFromVector(vEdge& r, Pkg& p, const CVec& v) { r = p.makeStateFromVector(v); }
ENTRY void e_makeDDFromMatrix(mEdge& r, Pkg& p, const CMat& m) { r = p.makeDDFromMatrix(m); }
ENTRY void e_makeGateDD(mEdge& r, Pkg& p, const GateMatrix& m, QubitCount n, const Controls& c, Qubit t, std::size_t s) { r = p.makeGateDD(m, n, c, t, s); }
ENTRY void e_makeGateDD_nc(mEdge& r, Pkg& p, const GateMatrix& m, QubitCount n, Qubit t, std::size_t s) { r = p.makeGateDD(m, n, t, s); }
ENTRY void e_makeGateDD_1c(mEdge& r, Pkg& p, const GateMatrix& m, QubitCount n, const Control& c, Qubit t, std::size_t s) { r = p.makeGateDD(m, n, c, t, s); }
ENTRY void e_makeTwoQubitGateDD(mEdge& r, Pkg& p, const TwoQubitGateMatrix& m, QubitCount n, Qubit t0, Qubit t1, std::size_t s) { r = p.makeTwoQubitGateDD(m, n, t0, t1, s); }
ENTRY void e_makeIdent1(mEdge& r, Pkg& p, QubitCount n) { r = p.makeIdent(n); }
ENTRY void e_makeIdent(mEdge& r, Pkg& p, Qubit a, Qubit b) { r = p.makeIdent(a, b); }
ENTRY void e_createInitialMatrix(mEdge& r, Pkg& p, QubitCount n, const std::vector<bool>& anc) { r = p.createInitialMatrix(n, anc); }
ENTRY void e_makeDDNode_v(vEdge& r, Pkg& p, Qubit v, const std::array<vEdge, 2>& e, bool c) { r = p.makeDDNode(v, e, c); }
ENTRY void e_makeDDNode_m(mEdge& r, Pkg& p, Qubit v, const std::array<mEdge, 4>& e, bool c) { r = p.makeDDNode(v, e, c); }
ENTRY void e_makeDDNode_d(dEdge& r, Pkg& p, Qubit v, const std::array<dEdge, 4>& e, bool c, bool g) { r = p.makeDDNode(v, e, c, g); }
ENTRY void e_normalize_v(vEdge& r, Pkg& p, const vEdge& e, bool c) { r = p.normalize(e, c); }
ENTRY void e_normalize_m(mEdge& r, Pkg& p, const mEdge& e, bool c) { r = p.normalize(e, c); }
ENTRY void e_normalize_d(dEdge& r, Pkg& p, const dEdge& e, bool c) { r = p.normalize(e, c); }

// ---- two-target gates -------------------------------------------------------------------------
#define TWO0(NAME) \
    ENTRY void e_##NAME(mEdge& r, Pkg& p, QubitCount n, Qubit a, Qubit b, std::size_t s) { r = p.NAME(n, a, b, s); } \
    ENTRY void e_##NAME##_c(mEdge& r, Pkg& p, QubitCount n, const Controls& c, Qubit a, Qubit b, std::size_t s) { r = p.NAME(n, c, a, b, s); }
#define TWO1(NAME) \
    ENTRY void e_##NAME(mEdge& r, Pkg& p, QubitCount n, Qubit a, Qubit b, fp t, std::size_t s) { r = p.NAME(n, a, b, t, s); } \
    ENTRY void e_##NAME##_c(mEdge& r, Pkg& p, QubitCount n, const Controls& c, Qubit a, Qubit b, fp t, std::size_t s) { r = p.NAME(n, c, a, b, t, s); }
#define TWO2(NAME) \
    ENTRY void e_##NAME(mEdge& r, Pkg& p, QubitCount n, Qubit a, Qubit b, fp t, fp u, std::size_t s) { r = p.NAME(n, a, b, t, u, s); } \
    ENTRY void e_##NAME##_c(mEdge& r, Pkg& p, QubitCount n, const Controls& c, Qubit a, Qubit b, fp t, fp u, std::size_t s) { r = p.NAME(n, c, a, b, t, u, s); }
TWO0(makeSWAPDD) TWO0(makeiSWAPDD) TWO0(makeiSWAPinvDD) TWO0(makeDCXDD) TWO0(makeECRDD)
TWO1(makeRXXDD) TWO1(makeRYYDD) TWO1(makeRZZDD) TWO1(makeRZXDD)
TWO2(makeXXMinusYYDD) TWO2(makeXXPlusYYDD)
ENTRY void e_makePeresDD_c(mEdge& r, Pkg& p, QubitCount n, const Controls& c, Qubit a, Qubit b, std::size_t s) { r = p.makePeresDD(n, c, a, b, s); }
ENTRY void e_makePeresdagDD_c(mEdge& r, Pkg& p, QubitCount n, const Controls& c, Qubit a, Qubit b, std::size_t s) { r = p.makePeresdagDD(n, c, a, b, s); }

// ---- gate matrices ----------------------------------------------------------------------------
#define MAT0(NAME) ENTRY void g_##NAME(GateMatrix& r) { r = NAME; }
#define MAT1(NAME) ENTRY void g_##NAME(GateMatrix& r, fp a) { r = NAME(a); }
#define MAT2(NAME) ENTRY void g_##NAME(GateMatrix& r, fp a, fp b) { r = NAME(a, b); }
#define MAT3(NAME) ENTRY void g_##NAME(GateMatrix& r, fp a, fp b, fp c) { r = NAME(a, b, c); }
#define TMAT0(NAME) ENTRY void g_##NAME(TwoQubitGateMatrix& r) { r = NAME; }
#define TMAT1(NAME) ENTRY void g_##NAME(TwoQubitGateMatrix& r, fp a) { r = NAME(a); }
#define TMAT2(NAME) ENTRY void g_##NAME(TwoQubitGateMatrix& r, fp a, fp b) { r = NAME(a, b); }
MAT0(Imat) MAT0(Hmat) MAT0(Xmat) MAT0(Ymat) MAT0(Zmat) MAT0(Smat) MAT0(Sdagmat) MAT0(Tmat) MAT0(Tdagmat)
MAT0(SXmat) MAT0(SXdagmat) MAT0(Vmat) MAT0(Vdagmat)
MAT3(U3mat) MAT2(U2mat) MAT1(Phasemat) MAT1(RXmat) MAT1(RYmat) MAT1(RZmat)
TMAT0(CXmat) TMAT0(CZmat) TMAT0(SWAPmat) TMAT0(iSWAPmat) TMAT0(iSWAPinvmat) TMAT0(ECRmat) TMAT0(DCXmat)
TMAT1(RXXmat) TMAT1(RYYmat) TMAT1(RZZmat) TMAT1(RZXmat) TMAT2(XXMinusYYmat) TMAT2(XXPlusYYmat)

// ---- reference counting -----------------------------------------------------------------------
ENTRY void e_incRef_v(Pkg& p, const vEdge& e) { p.incRef(e); }
ENTRY void e_incRef_m(Pkg& p, const mEdge& e) { p.incRef(e); }
ENTRY void e_incRef_d(Pkg& p, const dEdge& e) { p.incRef(e); }
ENTRY void e_decRef_v(Pkg& p, const vEdge& e) { p.decRef(e); }
ENTRY void e_decRef_m(Pkg& p, const mEdge& e) { p.decRef(e); }
ENTRY void e_decRef_d(Pkg& p, const dEdge& e) { p.decRef(e); }

// ---- measurement ------------------------------------------------------------------------------
ENTRY void e_measureAll(std::string& r, Pkg& p, vEdge& e, bool c, std::mt19937_64& mt, fp eps) { r = p.measureAll(e, c, mt, eps); }
ENTRY void e_determineMeasurementProbabilities(std::pair<fp, fp>& r, Pkg& p, const vEdge& e, Qubit i, bool a) { r = p.determineMeasurementProbabilities(e, i, a); }
ENTRY char e_measureOneCollapsing(Pkg& p, vEdge& e, Qubit i, bool a, std::mt19937_64& mt, fp eps) { return p.measureOneCollapsing(e, i, a, mt, eps); }
ENTRY void e_getProbVectorFromDensityMatrix(std::map<std::string, fp>& r, Pkg& p, dEdge& e, double t) { r = p.getProbVectorFromDensityMatrix(e, t); }

// ---- operations -------------------------------------------------------------------------------
ENTRY void e_add_v(vEdge& r, Pkg& p, const vEdge& x, const vEdge& y) { r = p.add(x, y); }
ENTRY void e_add_m(mEdge& r, Pkg& p, const mEdge& x, const mEdge& y) { r = p.add(x, y); }
ENTRY void e_add_d(dEdge& r, Pkg& p, const dEdge& x, const dEdge& y) { r = p.add(x, y); }
ENTRY void e_add2_v(vEdge& r, Pkg& p, const vEdge& x, const vEdge& y) { r = p.add2(x, y); }
ENTRY void e_add2_m(mEdge& r, Pkg& p, const mEdge& x, const mEdge& y) { r = p.add2(x, y); }
ENTRY void e_add2_d(dEdge& r, Pkg& p, const dEdge& x, const dEdge& y) { r = p.add2(x, y); }
ENTRY void e_transpose(mEdge& r, Pkg& p, const mEdge& x) { r = p.transpose(x); }
ENTRY void e_conjugateTranspose(mEdge& r, Pkg& p, const mEdge& x) { r = p.conjugateTranspose(x); }
ENTRY void e_multiply_mv(vEdge& r, Pkg& p, const mEdge& x, const vEdge& y, Qubit s) { r = p.multiply(x, y, s); }
ENTRY void e_multiply_mm(mEdge& r, Pkg& p, const mEdge& x, const mEdge& y, Qubit s) { r = p.multiply(x, y, s); }
ENTRY void e_multiply_dd(dEdge& r, Pkg& p, const dEdge& x, const dEdge& y, Qubit s, bool g) { r = p.multiply(x, y, s, g); }
ENTRY void e_applyOperationToDensity(dEdge& r, Pkg& p, dEdge& e, const mEdge& op, bool g) { r = p.applyOperationToDensity(e, op, g); }
ENTRY void e_innerProduct(ComplexValue& r, Pkg& p, const vEdge& x, const vEdge& y) { r = p.innerProduct(x, y); }
ENTRY fp e_fidelity(Pkg& p, const vEdge& x, const vEdge& y) { return p.fidelity(x, y); }
ENTRY fp e_fidelityOfMeasurementOutcomes(Pkg& p, const vEdge& x, const ProbabilityVector& pv) { return p.fidelityOfMeasurementOutcomes(x, pv); }
ENTRY fp e_expectationValue(Pkg& p, const mEdge& x, const vEdge& y) { return p.expectationValue(x, y); }
ENTRY void e_kronecker_v(vEdge& r, Pkg& p, const vEdge& x, const vEdge& y, bool i) { r = p.kronecker(x, y, i); }
ENTRY void e_kronecker_m(mEdge& r, Pkg& p, const mEdge& x, const mEdge& y, bool i) { r = p.kronecker(x, y, i); }
ENTRY void e_extend(mEdge& r, Pkg& p, const mEdge& x, Qubit h, Qubit l) { r = p.extend(x, h, l); }
ENTRY void e_partialTrace(mEdge& r, Pkg& p, const mEdge& x, const std::vector<bool>& el) { r = p.partialTrace(x, el); }
ENTRY void e_trace(ComplexValue& r, Pkg& p, const mEdge& x) { r = p.trace(x); }
ENTRY bool e_isCloseToIdentity(Pkg& p, const mEdge& x, fp tol) { return p.isCloseToIdentity(x, tol); }
ENTRY void e_deleteEdge_v(vEdge& r, Pkg& p, const vEdge& x, Qubit v, std::size_t i) { r = p.deleteEdge(x, v, i); }
ENTRY void e_deleteEdge_m(mEdge& r, Pkg& p, const mEdge& x, Qubit v, std::size_t i) { r = p.deleteEdge(x, v, i); }
ENTRY void e_reduceAncillae(mEdge& r, Pkg& p, mEdge& x, const std::vector<bool>& a, bool reg) { r = p.reduceAncillae(x, a, reg); }
ENTRY void e_reduceGarbage_v(vEdge& r, Pkg& p, vEdge& x, const std::vector<bool>& a) { r = p.reduceGarbage(x, a); }
ENTRY void e_reduceGarbage_m(mEdge& r, Pkg& p, mEdge& x, const std::vector<bool>& a, bool reg) { r = p.reduceGarbage(x, a, reg); }

// ---- extraction -------------------------------------------------------------------------------
ENTRY void e_getValueByPath_vs(ComplexValue& r, Pkg& p, const vEdge& e, const std::string& s) { r = p.getValueByPath(e, s); }
ENTRY void e_getValueByPath_ms(ComplexValue& r, Pkg& p, const mEdge& e, const std::string& s) { r = p.getValueByPath(e, s); }
ENTRY void e_getValueByPath_v(ComplexValue& r, Pkg& p, const vEdge& e, std::size_t i) { r = p.getValueByPath(e, i); }
ENTRY void e_getValueByPath_m(ComplexValue& r, Pkg& p, const mEdge& e, std::size_t i, std::size_t j) { r = p.getValueByPath(e, i, j); }
ENTRY void e_getVector(CVec& r, Pkg& p, const vEdge& e) { r = p.getVector(e); }
ENTRY void x_getVector(void* r, Pkg& p, const vEdge& e) { new (r) CVec(p.getVector(e)); }
ENTRY void x_getMatrix(void* r, Pkg& p, const mEdge& e) { new (r) CMat(p.getMatrix(e)); }
ENTRY void x_getDensityMatrix(void* r, Pkg& p, dEdge& e) { new (r) CMat(p.getDensityMatrix(e)); }
ENTRY void e_getMatrix(CMat& r, Pkg& p, const mEdge& e) { r = p.getMatrix(e); }
ENTRY void e_getDensityMatrix(CMat& r, Pkg& p, dEdge& e) { r = p.getDensityMatrix(e); }
ENTRY void e_exportAmplitudes(Pkg& p, const vEdge& e, std::vector<std::complex<fp>>& v, QubitCount n) { p.exportAmplitudes(e, v, n); }
ENTRY void e_addAmplitudes(Pkg& p, const vEdge& e, std::vector<std::complex<fp>>& v, QubitCount n) { p.addAmplitudes(e, v, n); }
ENTRY void e_printVector(Pkg& p, const vEdge& e) { p.printVector(e); }
ENTRY void e_printMatrix(Pkg& p, const mEdge& e) { p.printMatrix(e); }
ENTRY unsigned e_size_v(Pkg& p, const vEdge& e) { return p.size(e); }
ENTRY unsigned e_size_m(Pkg& p, const mEdge& e) { return p.size(e); }

// ---- serialisation / transfer / export --------------------------------------------------------
ENTRY void e_transfer_v(vEdge& r, Pkg& p, vEdge& e) { r = p.transfer(e); }
ENTRY void e_transfer_m(mEdge& r, Pkg& p, mEdge& e) { r = p.transfer(e); }
ENTRY void e_deserialize_v(vEdge& r, Pkg& p, std::istream& is, bool b) { r = p.template deserialize<vNode>(is, b); }
ENTRY void e_deserialize_m(mEdge& r, Pkg& p, std::istream& is, bool b) { r = p.template deserialize<mNode>(is, b); }
ENTRY void e_serialize_v(const vEdge& e, std::ostream& os, bool b) { serialize(e, os, b); }
ENTRY void e_serialize_m(const mEdge& e, std::ostream& os, bool b) { serialize(e, os, b); }
ENTRY void e_toDot_v(const vEdge& e, std::ostream& os, bool a, bool b, bool c, bool d, bool f) { toDot(e, os, a, b, c, d, f); }
ENTRY void e_toDot_m(const mEdge& e, std::ostream& os, bool a, bool b, bool c, bool d, bool f) { toDot(e, os, a, b, c, d, f); }
ENTRY bool e_isLocallyConsistent_v(Pkg& p, const vEdge& e) { return p.isLocallyConsistent(e); }
ENTRY bool e_isLocallyConsistent_m(Pkg& p, const mEdge& e) { return p.isLocallyConsistent(e); }

// ---- density ------------------------------------------------------------------------------------
ENTRY void d_applyDmChangesToEdges(dEdge& x, dEdge& y) { dEdge::applyDmChangesToEdges(x, y); }
ENTRY void d_revertDmChangesToEdges(dEdge& x, dEdge& y) { dEdge::revertDmChangesToEdges(x, y); }
ENTRY void d_applyDmChangesToEdge(dEdge& x) { dEdge::applyDmChangesToEdge(x); }
ENTRY void d_revertDmChangesToEdge(dEdge& x) { dEdge::revertDmChangesToEdge(x); }
ENTRY void d_alignDensityEdge(dEdge& x) { dEdge::alignDensityEdge(x); }
ENTRY void d_setDensityMatrixTrue(dEdge& x) { dEdge::setDensityMatrixTrue(x); }

// ---- tables -------------------------------------------------------------------------------------
#define UT(T, S, N) \
    ENTRY void u_lookup_##S(Edge<N>& r, decltype(Pkg::T)& t, const Edge<N>& e, bool k) { r = t.lookup(e, k); } \
    ENTRY N* u_getNode_##S(decltype(Pkg::T)& t) { return t.getNode(); } \
    ENTRY void u_returnNode_##S(decltype(Pkg::T)& t, N* n) { t.returnNode(n); } \
    ENTRY void u_incRef_##S(decltype(Pkg::T)& t, const Edge<N>& e) { t.incRef(e); } \
    ENTRY void u_decRef_##S(decltype(Pkg::T)& t, const Edge<N>& e) { t.decRef(e); } \
    ENTRY bool u_possiblyNeedsCollection_##S(decltype(Pkg::T)& t) { return t.possiblyNeedsCollection(); } \
    ENTRY std::size_t u_garbageCollect_##S(decltype(Pkg::T)& t, bool f) { return t.garbageCollect(f); } \
    ENTRY void u_clear_##S(decltype(Pkg::T)& t) { t.clear(); } \
    ENTRY void u_resize_##S(decltype(Pkg::T)& t, std::size_t n) { t.resize(n); } \
    ENTRY std::size_t u_getActiveNodeCountVar_##S(decltype(Pkg::T)& t, Qubit q) { return t.getActiveNodeCount(q); } \
    ENTRY std::size_t u_getNodeCount_##S(const decltype(Pkg::T)& t) { return t.getNodeCount(); } \
    ENTRY std::size_t u_getActiveNodeCount_##S(const decltype(Pkg::T)& t) { return const_cast<decltype(Pkg::T)&>(t).getActiveNodeCount(); } \
    ENTRY const void* u_getTables_##S(const decltype(Pkg::T)& t) { return &t.getTables(); } \
    ENTRY void u_ctor_##S(void* p, std::size_t n) { new (p) decltype(Pkg::T)(n); } \
    ENTRY std::size_t u_hash_##S(const N* n) { return decltype(Pkg::T)::hash(n); }
UT(vUniqueTable, v, vNode) UT(mUniqueTable, m, mNode) UT(dUniqueTable, d, dNode)

#define CTENT(T) std::remove_reference_t<decltype(std::declval<Pkg&>().T)>
#define CT(T, L, R, RES) \
    ENTRY void c_insert_##T(CTENT(T)& t, const L& l, const R& r, const RES& v) { t.insert(l, r, v); } \
    ENTRY void c_lookup_##T(RES& o, CTENT(T)& t, const L& l, const R& r, bool d) { o = t.lookup(l, r, d); } \
    ENTRY void c_clear_##T(CTENT(T)& t) { t.clear(); }
CT(vectorAdd, vCachedEdge, vCachedEdge, vCachedEdge)
CT(matrixAdd, mCachedEdge, mCachedEdge, mCachedEdge)
CT(densityAdd, dCachedEdge, dCachedEdge, dCachedEdge)
CT(matrixVectorMultiplication, mEdge, vEdge, vCachedEdge)
CT(matrixMatrixMultiplication, mEdge, mEdge, mCachedEdge)
CT(densityDensityMultiplication, dEdge, dEdge, dCachedEdge)
CT(vectorInnerProduct, vEdge, vEdge, vCachedEdge)
CT(vectorKronecker, vEdge, vEdge, vCachedEdge)
CT(matrixKronecker, mEdge, mEdge, mCachedEdge)
#define UCT(T) \
    ENTRY void c_insert_##T(CTENT(T)& t, const mEdge& l, const mEdge& v) { t.insert(l, v); } \
    ENTRY void c_lookup_##T(mEdge& o, CTENT(T)& t, const mEdge& l) { o = t.lookup(l); } \
    ENTRY void c_clear_##T(CTENT(T)& t) { t.clear(); }
UCT(matrixTranspose) UCT(conjugateMatrixTranspose)
ENTRY void c_insert_toffoli(CTENT(toffoliTable)& t, QubitCount n, const Controls& c, Qubit q, const mEdge& e) { t.insert(n, c, q, e); }
ENTRY void c_lookup_toffoli(mEdge& o, CTENT(toffoliTable)& t, QubitCount n, const Controls& c, Qubit q) { o = t.lookup(n, c, q); }
ENTRY void c_clear_toffoli(CTENT(toffoliTable)& t) { t.clear(); }
ENTRY void c_insert_stoch(CTENT(stochasticNoiseOperationCache)& t, std::uint8_t k, Qubit q, const mEdge& e) { t.insert(k, q, e); }
ENTRY void c_lookup_stoch(mEdge& o, CTENT(stochasticNoiseOperationCache)& t, std::uint8_t k, Qubit q) { o = t.lookup(k, q); }
ENTRY void c_clear_stoch(CTENT(stochasticNoiseOperationCache)& t) { t.clear(); }
ENTRY void c_insert_dnoise(CTENT(densityNoise)& t, const dEdge& l, const dEdge& v, const std::vector<Qubit>& q) { t.insert(l, v, q); }
ENTRY void c_lookup_dnoise(dEdge& o, CTENT(densityNoise)& t, const dEdge& l, const std::vector<Qubit>& q) { o = t.lookup(l, q); }
ENTRY void c_clear_dnoise(CTENT(densityNoise)& t) { t.clear(); }

// ---- numbers ------------------------------------------------------------------------------------
using CTab = ComplexTable<>;
ENTRY CTab::Entry* t_lookup(CTab& t, fp v) { return t.lookup(v); }
ENTRY void t_incRef(CTab::Entry* e) { CTab::incRef(e); }
ENTRY void t_decRef(CTab::Entry* e) { CTab::decRef(e); }
ENTRY bool t_possiblyNeedsCollection(CTab& t) { return t.possiblyNeedsCollection(); }
ENTRY std::size_t t_garbageCollect(CTab& t, bool f) { return t.garbageCollect(f); }
ENTRY void t_ctor(void* p) { new (p) CTab(); }
ENTRY void t_clear(CTab& t) { t.clear(); }
ENTRY CTab::Entry* t_getEntry(CTab& t) { return t.getEntry(); }
ENTRY void t_returnEntry(CTab& t, CTab::Entry* e) { t.returnEntry(e); }
ENTRY std::size_t t_getCount(const CTab& t) { return t.getCount(); }
ENTRY const void* t_getTable(const CTab& t) { return &t.getTable(); }
ENTRY fp t_val(const CTab::Entry* e) { return CTab::Entry::val(e); }
ENTRY RefCount t_ref(const CTab::Entry* e) { return CTab::Entry::ref(e); }
ENTRY bool t_approxEq_e(const CTab::Entry* a, const CTab::Entry* b) { return CTab::Entry::approximatelyEquals(a, b); }
ENTRY bool t_approxEq_f(fp a, fp b) { return CTab::Entry::approximatelyEquals(a, b); }
ENTRY bool t_approxZero_e(const CTab::Entry* a) { return CTab::Entry::approximatelyZero(a); }
ENTRY bool t_approxOne_e(const CTab::Entry* a) { return CTab::Entry::approximatelyOne(a); }
ENTRY std::int64_t t_hash(fp v) { return CTab::hash(v); }

ENTRY void k_getCached(Complex& r, ComplexCache<>& c) { r = c.getCachedComplex(); }
ENTRY void k_getTemporary(Complex& r, ComplexCache<>& c) { r = c.getTemporaryComplex(); }
ENTRY void k_return(ComplexCache<>& c, Complex& x) { c.returnToCache(x); }
ENTRY void k_ctor(void* p) { new (p) ComplexCache<>(); }
ENTRY std::size_t k_getCount(const ComplexCache<>& c) { return c.getCount(); }
ENTRY void k_clear(ComplexCache<>& c) { c.clear(); }

ENTRY void n_lookup_c(Complex& r, ComplexNumbers& c, const Complex& x) { r = c.lookup(x); }
ENTRY void n_lookup_rf(Complex& r, ComplexNumbers& c, fp a, fp b) { r = c.lookup(a, b); }
ENTRY void n_lookup_cv(Complex& r, ComplexNumbers& c, const ComplexValue& v) { r = c.lookup(v); }
ENTRY void n_lookup_std(Complex& r, ComplexNumbers& c, const std::complex<fp>& v) { r = c.lookup(v); }
ENTRY void n_incRef(const Complex& c) { ComplexNumbers::incRef(c); }
ENTRY void n_decRef(const Complex& c) { ComplexNumbers::decRef(c); }
ENTRY void n_clear(ComplexNumbers& c) { c.clear(); }
ENTRY std::size_t n_garbageCollect(ComplexNumbers& c, bool f) { return c.garbageCollect(f); }
ENTRY void n_getTemporary(Complex& r, ComplexNumbers& c) { r = c.getTemporary(); }
ENTRY void n_getTemporary_rf(Complex& r, ComplexNumbers& c, fp a, fp b) { r = c.getTemporary(a, b); }
ENTRY void n_getTemporary_cv(Complex& r, ComplexNumbers& c, const ComplexValue& v) { r = c.getTemporary(v); }
ENTRY void n_getCached(Complex& r, ComplexNumbers& c) { r = c.getCached(); }
ENTRY void n_getCached_rf(Complex& r, ComplexNumbers& c, fp a, fp b) { r = c.getCached(a, b); }
ENTRY void n_getCached_cv(Complex& r, ComplexNumbers& c, const ComplexValue& v) { r = c.getCached(v); }
ENTRY void n_getCached_std(Complex& r, ComplexNumbers& c, const std::complex<fp>& v) { r = c.getCached(v); }
ENTRY void n_returnToCache(ComplexNumbers& c, Complex& v) { c.returnToCache(v); }
ENTRY void n_addCached(Complex& r, ComplexNumbers& c, const Complex& a, const Complex& b) { r = c.addCached(a, b); }
ENTRY void n_subCached(Complex& r, ComplexNumbers& c, const Complex& a, const Complex& b) { r = c.subCached(a, b); }
ENTRY void n_mulCached(Complex& r, ComplexNumbers& c, const Complex& a, const Complex& b) { r = c.mulCached(a, b); }
ENTRY void n_divCached(Complex& r, ComplexNumbers& c, const Complex& a, const Complex& b) { r = c.divCached(a, b); }
ENTRY void n_add(Complex& r, const Complex& a, const Complex& b) { ComplexNumbers::add(r, a, b); }
ENTRY void n_sub(Complex& r, const Complex& a, const Complex& b) { ComplexNumbers::sub(r, a, b); }
ENTRY void n_mul(Complex& r, const Complex& a, const Complex& b) { ComplexNumbers::mul(r, a, b); }
ENTRY void n_div(Complex& r, const Complex& a, const Complex& b) { ComplexNumbers::div(r, a, b); }
ENTRY fp n_mag2(const Complex& a) { return ComplexNumbers::mag2(a); }
ENTRY fp n_mag(const Complex& a) { return ComplexNumbers::mag(a); }
ENTRY fp n_arg(const Complex& a) { return ComplexNumbers::arg(a); }
ENTRY void n_conj(Complex& r, const Complex& a) { r = ComplexNumbers::conj(a); }
ENTRY void n_neg(Complex& r, const Complex& a) { r = ComplexNumbers::neg(a); }
ENTRY bool x_exactlyZero(const Complex& a) { return a.exactlyZero(); }
ENTRY bool x_exactlyOne(const Complex& a) { return a.exactlyOne(); }
ENTRY bool x_approxZero(const Complex& a) { return a.approximatelyZero(); }
ENTRY bool x_approxOne(const Complex& a) { return a.approximatelyOne(); }
ENTRY bool x_approxEquals(const Complex& a, const Complex& b) { return a.approximatelyEquals(b); }
ENTRY bool x_eq(const Complex& a, const Complex& b) { return a == b; }
ENTRY bool x_ne(const Complex& a, const Complex& b) { return a != b; }
ENTRY void x_writeBinary(const Complex& a, std::ostream& os) { a.writeBinary(os); }
ENTRY void cv_readBinary(ComplexValue& a, std::istream& is) { a.readBinary(is); }
ENTRY void cv_writeBinary(const ComplexValue& a, std::ostream& os) { a.writeBinary(os); }
ENTRY bool cv_approxEquals(const ComplexValue& a, const ComplexValue& b) { return a.approximatelyEquals(b); }
ENTRY bool cv_approxZero(const ComplexValue& a) { return a.approximatelyZero(); }
ENTRY bool cv_approxOne(const ComplexValue& a) { return a.approximatelyOne(); }
ENTRY bool cv_eq(const ComplexValue& a, const ComplexValue& b) { return a == b; }
ENTRY void cv_add(ComplexValue& r, const ComplexValue& a, const ComplexValue& b) { r = a + b; }
ENTRY void cv_fromString(ComplexValue& a, const std::string& r, const std::string& i) { a.fromString(r, i); }

// ---- controls -----------------------------------------------------------------------------------
ENTRY bool o_less(const Control& a, const Control& b) { return a < b; }
ENTRY bool o_eq(const Control& a, const Control& b) { return a == b; }
ENTRY bool o_ne(const Control& a, const Control& b) { return a != b; }
ENTRY bool o_cmp(const Control& a, const Control& b) { return CompareControl()(a, b); }
ENTRY bool o_cmp_q1(Qubit a, const Control& b) { return CompareControl()(a, b); }
ENTRY bool o_cmp_q2(const Control& a, Qubit b) { return CompareControl()(a, b); }
ENTRY void o_pc(Control& r, unsigned long long q) { r = literals::operator""_pc(q); }
ENTRY void o_nc(Control& r, unsigned long long q) { r = literals::operator""_nc(q); }
ENTRY bool ed_ne_v(const vEdge& a, const vEdge& b) { return a != b; }
ENTRY bool ed_ne_m(const mEdge& a, const mEdge& b) { return a != b; }
ENTRY bool ed_eq_d(const dEdge& a, const dEdge& b) { return a == b; }
ENTRY bool ed_ne_d(const dEdge& a, const dEdge& b) { return a != b; }
ENTRY bool ed_ne_vc(const vCachedEdge& a, const vCachedEdge& b) { return a != b; }
ENTRY bool ed_ne_mc(const mCachedEdge& a, const mCachedEdge& b) { return a != b; }
ENTRY bool ed_eq_dc(const dCachedEdge& a, const dCachedEdge& b) { return a == b; }
ENTRY bool ed_ne_dc(const dCachedEdge& a, const dCachedEdge& b) { return a != b; }
ENTRY void ed_cached_v(vCachedEdge& r, const vEdge& a) { r = {a.p, a.w}; }
ENTRY void ed_cached_m(mCachedEdge& r, const mEdge& a) { r = {a.p, a.w}; }
ENTRY void ed_cached_d(dCachedEdge& r, const dEdge& a) { r = {a.p, a.w}; }
#define EDGE(S, E) \
    ENTRY bool ed_term_##S(const E& a) { return a.isTerminal(); } \
    ENTRY bool ed_zero_##S(const E& a) { return a.isZeroTerminal(); } \
    ENTRY bool ed_one_##S(const E& a) { return a.isOneTerminal(); } \
    ENTRY void ed_mk_##S(E& r, const Complex& w) { r = E::terminal(w); } \
    ENTRY void ed_mkzero_##S(E& r) { r = E::zero; } \
    ENTRY void ed_mkone_##S(E& r) { r = E::one; }
EDGE(v, vEdge) EDGE(m, mEdge) EDGE(d, dEdge)
ENTRY bool ed_eq_v(const vEdge& a, const vEdge& b) { return a == b; }
ENTRY bool ed_eq_m(const mEdge& a, const mEdge& b) { return a == b; }
ENTRY bool ed_eq_vc(const vCachedEdge& a, const vCachedEdge& b) { return a == b; }
ENTRY bool ed_eq_mc(const mCachedEdge& a, const mCachedEdge& b) { return a == b; }
} // extern "C"

// marks of matrix nodes
ENTRY void n_setIdentity(mNode& n, bool b) { n.setIdentity(b); }
ENTRY void n_setSymmetric(mNode& n, bool b) { n.setSymmetric(b); }
ENTRY bool n_isIdentity(const mNode& n) { return n.isIdentity(); }
ENTRY bool n_isSymmetric(const mNode& n) { return n.isSymmetric(); }
ENTRY void d_apply(dNode*& p) { dNode::applyDmChangesToNode(p); }
ENTRY void d_revert(dNode*& p) { dNode::revertDmChangesToNode(p); }
ENTRY void d_round(dNode*& p) { dNode::applyDmChangesToNode(p); dNode::revertDmChangesToNode(p); }
ENTRY void d_edge(dEdge& x) { dEdge::applyDmChangesToEdge(x); dEdge::revertDmChangesToEdge(x); }
ENTRY void d_edges(dEdge& x, dEdge& y) { dEdge::applyDmChangesToEdges(x, y); dEdge::revertDmChangesToEdges(x, y); }
