// Stand-ins for the circuit classes that code made by the model compiler is compiled against; accesses are recorded.
#pragma once
#include <cmath>
#include <complex>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

struct CircuitNode {
    size_t number;
    bool ground;
    size_t getNumber() { return number; }
    bool isGROUND() { return ground; }
};
typedef std::shared_ptr<CircuitNode> CircuitNodePtr;

struct Values {
    std::vector<double> v;
    mutable size_t bad = 0;
    double operator[](size_t i) const {
        if (i < v.size())
            return v[i];
        ++bad;
        return 0.0;
    }
};

struct NodeKeeper {
    typedef Values Solution;
    std::map<std::string, CircuitNodePtr> nodes;
    std::vector<std::string> asked;
};

namespace dsMath {
template <typename T> struct RowColVal {
    RowColVal(int r, int c, T v) : row(r), col(c), val(v) {}
    int row, col;
    T val;
};
template <typename D> using RealRowColVal = RowColVal<D>;
template <typename D> using RealRowColValueVec = std::vector<RealRowColVal<D>>;
template <typename D> using RHSEntry = std::pair<int, D>;
template <typename D> using RHSEntryVec = std::vector<RHSEntry<D>>;
}

class InstanceModel {
  public:
    virtual ~InstanceModel() {}
    virtual bool addParam(const std::string &, double) = 0;
    virtual void assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> &mat, dsMath::RHSEntryVec<double> &rhs) = 0;
    virtual void assembleTran_impl(const double scl, const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> *mat, dsMath::RHSEntryVec<double> &rhs) = 0;

  protected:
    InstanceModel(NodeKeeper *nk, const char *name) : nk_(nk), name_(name) {}
    CircuitNodePtr AddCircuitNode(const char *x) { return get(x); }
    CircuitNodePtr AddInternalNode(const char *x) { return get(name_ + "." + x); }

  private:
    CircuitNodePtr get(const std::string &x) {
        nk_->asked.push_back(x);
        auto &p = nk_->nodes[x];
        if (!p)
            p = CircuitNodePtr(new CircuitNode{size_t(123456), false});
        return p;
    }
    NodeKeeper *nk_;
    std::string name_;
};

// functions which models declare
inline double uf1(double x) { return x / (1.0 + x * x); }
inline double uf2(double x, double y) { return sin(x) * y - x; }
inline double uf3(double x, double y, double z) { return x * y + cos(z); }
