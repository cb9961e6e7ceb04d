// Put in front of the source that sets up the sampler runs (-include): every step added to a sampler is wrapped in one
// that records what it did. Only the public interface of the sampler and of the steps is used.
#ifndef VERIF_SPY_HPP
#define VERIF_SPY_HPP
#include <armadillo>
#include <map>
#include <set>
#include <vector>
#include "include/carpack.hpp"
#include "include/samplers.hpp"
#include "include/steps.hpp"

typedef std::vector<double> SpyVec;

struct SpyStep { Step* step; BaseParameter* par; bool exchange; AdaptiveMetro* ram; };
struct SpyEvent { int step; bool adapted, others; std::vector<int> ids; SpyVec lds; };

struct Spy {
    bool engaged, ready, other;              // other: a step that is neither a move nor an exchange
    std::vector<SpyStep> steps;
    std::vector<BaseParameter*> chains;      // by temperature
    std::map<SpyVec, int> names;
    std::vector<int> first;
    SpyVec firstLds, firstValues;
    std::vector<SpyEvent> events;
    std::vector<arma::mat> cov;              // per step
    std::vector<arma::vec> probes;
    double bound;
    SpyVec temps, tracked, density;          // density: per probe, per chain
    std::vector<int> stepChain;
    Spy() : engaged(false), ready(false), other(false), bound(0) {}
    Parameter<arma::vec>& par(int i) { return *static_cast<Parameter<arma::vec>*>(chains[i]); }
    int name(const arma::vec& v) {
        SpyVec k(v.begin(), v.end());
        std::map<SpyVec, int>::iterator i = names.find(k);
        if (i != names.end()) return i->second;
        int n = names.size();
        names[k] = n;
        return n;
    }
    void snapshot(std::vector<int>& ids, SpyVec& lds) {
        for (size_t i = 0; i < chains.size(); i++) { ids.push_back(name(par(i).Value())); lds.push_back(par(i).GetLogDensity()); }
    }
    void prepare() {
        for (size_t s = 0; s < steps.size(); s++) {
            if (std::find(chains.begin(), chains.end(), steps[s].par) == chains.end()) chains.push_back(steps[s].par);
        }
        std::stable_sort(chains.begin(), chains.end(), [](BaseParameter* a, BaseParameter* b) { return a->GetTemperature() < b->GetTemperature(); });
        for (size_t s = 0; s < steps.size(); s++) {
            stepChain.push_back(std::find(chains.begin(), chains.end(), steps[s].par) - chains.begin());
            cov.push_back(steps[s].ram ? steps[s].ram->GetCovariance() : arma::mat());
        }
        snapshot(first, firstLds);
        for (size_t i = 0; i < chains.size(); i++) { arma::vec v = par(i).Value(); firstValues.insert(firstValues.end(), v.begin(), v.end()); }
        for (size_t i = 0; i < chains.size(); i++) { temps.push_back(chains[i]->GetTemperature()); tracked.push_back(chains[i]->Track()); }
        ready = true;
    }
    void did(int step) {
        SpyEvent e;
        e.step = step;
        e.adapted = e.others = false;
        for (size_t s = 0; s < steps.size(); s++) {
            if (!steps[s].ram) continue;
            arma::mat c = steps[s].ram->GetCovariance();
            bool changed = false;
            for (size_t k = 0; k < c.n_elem; k++) changed = changed || c(k) != cov[s](k);
            if (changed) { (int(s) == step ? e.adapted : e.others) = true; cov[s] = c; }
        }
        snapshot(e.ids, e.lds);
        events.push_back(e);
    }
    void finish() {
        // the same vectors, evaluated by every chain
        std::set<SpyVec> seen;
        for (size_t i = 0; i < chains.size() && i < 3; i++) probes.push_back(par(i).Value());
        size_t n = probes.size();
        for (size_t i = 0; i < n && bound > 0; i++) {
            arma::vec v = probes[i];
            v(0) = bound * 0.9995; probes.push_back(v);
            v(0) = bound * 1.0005; probes.push_back(v);
        }
        for (size_t k = 0; k < probes.size(); k++) for (size_t i = 0; i < chains.size(); i++) density.push_back(par(i).LogDensity(probes[k]));
    }
};
extern Spy* theSpy;

class SpyWrapper : public Step {
public:
    Step* inner; int index;
    SpyWrapper(Step* s, int i) : inner(s), index(i) {}
    virtual ~SpyWrapper() {}
    void DoStep() {
        if (!theSpy->ready) theSpy->prepare();
        inner->DoStep();
        theSpy->did(index);
    }
    std::string ParameterLabel() { return inner->ParameterLabel(); }
    std::string ParameterValue() { return inner->ParameterValue(); }
    bool ParameterTrack() { return inner->ParameterTrack(); }
    BaseParameter* GetParPointer() { return inner->GetParPointer(); }
};

class SpySampler : public Sampler {
public:
    template <class... A> SpySampler(A... a) : Sampler(a...) {}
    void AddStep(Step* s) {
        if (!theSpy) { Sampler::AddStep(s); return; }
        theSpy->engaged = true;
        SpyStep r;
        r.step = s;
        r.par = s->GetParPointer();
        r.ram = dynamic_cast<AdaptiveMetro*>(s);
        r.exchange = dynamic_cast<ExchangeStep<arma::vec, CARp>*>(s) != nullptr;
        if (!r.exchange && !r.ram) theSpy->other = true;
        theSpy->steps.push_back(r);
        Sampler::AddStep(new SpyWrapper(s, theSpy->steps.size() - 1));
    }
    template <class V> void Run(const V& init) {
        Sampler::Run(init);
        if (theSpy) theSpy->finish();
    }
};
#define Sampler SpySampler
#endif
