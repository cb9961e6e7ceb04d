// Conformance driver of whole sampler runs. Executes a list of calls read from a file and writes one JSON line per call.
// Compiled with -DSPY when the source that sets up the runs is compiled behind spy.hpp.
#include <armadillo>
#include <random.hpp>
#ifdef SPY
#include "spy.hpp"
#undef Sampler
Spy* theSpy = nullptr;
#endif
#include "include/carpack.hpp"
#include "include/carmcmc.hpp"
#include "common.hpp"

extern RandomGenerator RandGen;

int main(int argc, char** argv) {
    In in(argv[1]);
    Out out(argv[2]);
    std::string op;
    while (in.word(op)) {
        std::string id = in.str();
        out.begin();
        out.ks("op", op);
        out.ks("id", id);
        try {
        if (op == "seed") {
            RandGen.SetSeed((unsigned long)in.num());
        } else if (op == "run") {
            std::string kind = in.str();
            int p = in.integer(), q = in.integer(), nw = in.integer(), samples = in.integer(), burnin = in.integer(), thin = in.integer();
            double bound = in.num();
            vd init = in.lvec(), t = in.lvec(), y = in.lvec(), e = in.lvec();
            bool virial = in.integer() != 0;
#ifdef SPY
            Spy spy;
            spy.bound = bound;
            theSpy = &spy;
#endif
            std::vector<vd> s;
            vd lls, again, prior, initld;
            auto read = [&](auto r) {
                s = r->getSamples();
                lls = r->GetLogLikes();
                vd g;
                if (!s.empty() && init.size() == s[0].size()) initld.push_back(r->getLogDensity(init));
                for (size_t i = 0; i < s.size(); i++) {
                    again.push_back(r->getLogDensity(s[i]));
                    prior.push_back(r->getLogPrior(s[i]));
                }
                if (virial) {
                    double m = 0, w = 0;
                    for (size_t i = 0; i < s.size(); i++) m += s[i][2] / s.size();
                    vd ts;
                    for (size_t i = 0; i < s.size(); i++) {
                        vd a = s[i], b = s[i];
                        double h = 0.01 * std::fabs(s[i][0]);
                        a[2] += h; b[2] -= h;
                        ts.push_back(-(s[i][2] - m) * (r->getLogDensity(a) - r->getLogDensity(b)) / (2 * h));
                    }
                    // means of batches
                    size_t nb = 40, len = ts.size() / nb;
                    for (size_t k = 0; k < nb; k++) { w = 0; for (size_t i = 0; i < len; i++) w += ts[k * len + i] / len; g.push_back(w); }
                    out.kl("virial", g);
                }
            };
            if (kind == "car1") read(RunCar1Sampler(samples, burnin, t, y, e, thin, init));
            else read(RunCarmaSampler(samples, burnin, t, y, e, p, q, nw, kind == "zcar", thin, init));
            vd flat, lens;
            for (size_t i = 0; i < s.size(); i++) { lens.push_back(s[i].size()); flat.insert(flat.end(), s[i].begin(), s[i].end()); }
            if (!virial) {
                out.kl("lens", lens);
                out.kl("theta", flat);
                out.kl("lls", lls);
                out.kl("again", again);
                out.kl("initld", initld);
                out.kl("prior", prior);
            }
#ifdef SPY
            theSpy = nullptr;
            out.ki("engaged", spy.engaged && !spy.other && spy.ready);
            if (!virial) {
                out.kl("temps", spy.temps);
                out.kl("tracked", spy.tracked);
                out.kl("first", spy.first);
                out.kl("firstvalues", spy.firstValues);
                out.kl("firstlds", spy.firstLds);
                vd ev, recs, lds;
                for (size_t k = 0; k < spy.events.size(); k++) {
                    const SpyEvent& x = spy.events[k];
                    ev.push_back(spy.steps[x.step].exchange);
                    ev.push_back(spy.stepChain[x.step]);
                    ev.push_back(x.adapted);
                    ev.push_back(x.others);
                    ev.insert(ev.end(), x.ids.begin(), x.ids.end());
                    lds.insert(lds.end(), x.lds.begin(), x.lds.end());
                }
                for (size_t i = 0; i < s.size(); i++) {
                    std::map<SpyVec, int>::iterator it = spy.names.find(s[i]);
                    recs.push_back(it == spy.names.end() ? -1 : it->second);
                }
                out.kl("events", ev);
                out.kl("lds", lds);
                out.kl("recorded", recs);
                out.kl("density", spy.density);
                out.ki("probes", spy.probes.size());
            }
#endif
        } else {
            std::cerr << "driver: unknown command " << op << "\n";
            return 3;
        }
        } catch (const std::exception& ex) {
            std::string w;
            for (const char* c = ex.what(); *c; c++) w += (*c == '"' || *c == '\\' || *c == '\n') ? ' ' : *c;
            out.ks("exception", w);
        }
        out.end();
    }
    return 0;
}
