// Conformance driver for the sampling engine: random variates, proposals, Metropolis and exchange steps, the
// sampler's schedule and the option dialogue. Executes a list of calls read from a file and writes one JSON line
// per call.
#include <armadillo>
#include <random.hpp>
#include <proposals.hpp>
#include <samplers.hpp>
#include <steps.hpp>
#include <parameters.hpp>
#include "include/carpack.hpp"
#include "include/carmcmc.hpp"
#include "common.hpp"

static arma::vec A(const vd& v) { return arma::vec(v); }
static vd V(const arma::vec& a) { return vd(a.begin(), a.end()); }
static vd key(const arma::vec& a) { return V(a); }
static vd key(double a) { return vd(1, a); }

static double ldOf(const std::string& kind, double v) {
    if (kind == "neg") return -std::numeric_limits<double>::infinity();
    if (kind == "pos") return std::numeric_limits<double>::infinity();
    if (kind == "nan") return std::numeric_limits<double>::quiet_NaN();
    return v;
}
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

// ---------------------------------------------------------------- scripted target density
// Values are named by the order they are met in; the density of a value met for the first time is the pending one.
struct Names {
    std::map<vd, int> ids;
    vd lds;                       // density of every name
    int pending;
    Names() : pending(0) {}
    int id(const vd& k) const { std::map<vd, int>::const_iterator i = ids.find(k); return i == ids.end() ? -1 : i->second; }
};

template <class T> class MemoParam : public Parameter<T> {
public:
    Names* names;
    T last;                       // last value evaluated that is not the current one
    MemoParam(Names* n, double temperature) : Parameter<T>(true, "memo", temperature), names(n) {}
    double LogDensity(T v) {
        vd k = key(v);
        if (k != key(this->value_)) last = v;
        if (names->id(k) < 0) names->ids[k] = names->pending;
        return names->lds[names->id(k)];
    }
    T StartingValue() { return this->value_; }
    T SetStartingValue(T init) { return init; }
    void force(T v, int id) { names->ids[key(v)] = id; this->value_ = v; this->log_posterior_ = names->lds[id]; }
    int current() { return names->id(key(this->value_)); }
};

static arma::vec shifted(const arma::vec& v, double x) { arma::vec w = v; w(0) += x; w(1) -= 0.5 * x; return w; }
static double shifted(double v, double x) { return v + x; }

// proposal whose next draw and densities are prescribed
template <class T> class ScriptProposal : public Proposal<T> {
public:
    double shift, back, forth;
    T old;
    ScriptProposal() : shift(0), back(0), forth(0) {}
    T Draw(T start) { old = start; return shifted(start, shift); }
    // density of proposing new_value from start
    double LogDensity(T new_value, T start) { return key(start) == key(old) ? forth : back; }
};
class ScriptUnits : public Proposal<double> {
public:
    vd u; size_t at;
    ScriptUnits() : at(0) {}
    double Draw(double start) { double x = u[at % u.size()]; at++; return start + x; }
    double LogDensity(double, double) { return 0.0; }
};

struct ChainOp { bool exchange; int chain; bool ram; double ld, back, forth; };
struct Stat { long n, acc; double rmin, rmax; Stat() : n(0), acc(0), rmin(1e300), rmax(-1e300) {} };

template <class T> struct Start { static T at(int i); };
template <> struct Start<double> { static double at(int i) { return 3.0 * i + 0.25; } };
template <> struct Start<arma::vec> { static arma::vec at(int i) { arma::vec v(2); v(0) = 3.0 * i + 0.25; v(1) = -1.0 * i; return v; } };

// steps specific to vector values
template <class T> struct Extra {
    static Step* ram(MemoParam<T>&, Proposal<double>&) { return nullptr; }
    static Step* exchange(Ensemble<MemoParam<T> >&, int) { return nullptr; }
    static double ramRatio(Step*) { return 0; }
    static double exRatio(Step*) { return 0; }
};
template <> struct Extra<arma::vec> {
    typedef MemoParam<arma::vec> P;
    typedef ExchangeStep<arma::vec, P> X;
    static Step* ram(P& p, Proposal<double>& u) { return new AdaptiveMetro(p, u, arma::eye<arma::mat>(2, 2), 0.25, 4); }
    static Step* exchange(Ensemble<P>& e, int i) { return new X(e[i], i, e, 3); }
    static double ramRatio(Step* s) { return static_cast<AdaptiveMetro*>(s)->GetMetroRatio(); }
    static double exRatio(Step* s) { return static_cast<X*>(s)->GetMetroRatio(); }
};

template <class T> static void runChains(Out& out, const vd& temps, const vd& lds0, const std::vector<ChainOp>& ops,
                                         int reps, int full) {
    int K = temps.size();
    std::map<std::vector<int>, Stat> stats;
    std::vector<double> traces;                 // full repetitions: per op, per chain: id, ld
    long unowned = 0, frame = 0;
    for (int r = 0; r < reps; r++) {
        Names names;
        names.lds = lds0;
        for (size_t k = 0; k < ops.size(); k++) names.lds.push_back(ops[k].ld);
        Ensemble<MemoParam<T> > ens;
        std::vector<std::shared_ptr<ScriptProposal<T> > > props;
        std::vector<std::shared_ptr<ScriptUnits> > units;
        std::vector<std::shared_ptr<MetropStep<T> > > met;
        std::vector<std::shared_ptr<Step> > ram, exc;
        for (int i = 0; i < K; i++) {
            ens.AddObject(new MemoParam<T>(&names, temps[i]));
            ens[i].force(Start<T>::at(i), i);
            props.push_back(std::make_shared<ScriptProposal<T> >());
            units.push_back(std::make_shared<ScriptUnits>());
        }
        for (int i = 0; i < K; i++) {
            met.push_back(std::make_shared<MetropStep<T> >(ens[i], *props[i], 2));
            ram.push_back(std::shared_ptr<Step>(Extra<T>::ram(ens[i], *units[i])));
            exc.push_back(std::shared_ptr<Step>(i ? Extra<T>::exchange(ens, i) : nullptr));
        }
        for (size_t k = 0; k < ops.size(); k++) {
            const ChainOp& o = ops[k];
            names.pending = K + k;
            std::vector<int> before(K);
            vd ldb(K);
            for (int i = 0; i < K; i++) { before[i] = ens[i].current(); ldb[i] = ens[i].GetLogDensity(); }
            double ratio;
            std::vector<int> sk;
            sk.push_back(k);
            sk.push_back(before[o.chain]);
            if (o.exchange) {
                exc[o.chain]->DoStep();
                ratio = Extra<T>::exRatio(exc[o.chain].get());
                sk.push_back(before[o.chain - 1]);
            } else if (o.ram) {
                units[o.chain]->u = { 0.37 + 0.01 * k, -0.61 + 0.003 * k };
                ram[o.chain]->DoStep();
                ratio = Extra<T>::ramRatio(ram[o.chain].get());
            } else {
                props[o.chain]->shift = 0.001 * (k + 1) + 1e-5 * o.chain;
                props[o.chain]->back = o.back;
                props[o.chain]->forth = o.forth;
                met[o.chain]->DoStep();
                ratio = met[o.chain]->GetMetroRatio();
            }
            Stat& s = stats[sk];
            s.n++;
            bool moved = ens[o.chain].current() != before[o.chain];
            if (moved) s.acc++;
            if (std::isfinite(ratio)) { s.rmin = std::min(s.rmin, ratio); s.rmax = std::max(s.rmax, ratio); }
            for (int i = 0; i < K; i++) {
                int id = ens[i].current();
                if (id < 0 || !same(ens[i].GetLogDensity(), names.lds[id])) unowned++;
                bool touched = i == o.chain || (o.exchange && i == o.chain - 1);
                if ((!touched || !moved) && (id != before[i] || !same(ens[i].GetLogDensity(), ldb[i]))) frame++;
                if (ens[i].GetTemperature() != temps[i]) frame++;
                if (r < full) { traces.push_back(id); traces.push_back(ens[i].GetLogDensity()); }
            }
        }
    }
    out.ki("unowned", unowned);
    out.ki("frame", frame);
    out.kl("traces", traces);
    vd flat;
    for (std::map<std::vector<int>, Stat>::iterator i = stats.begin(); i != stats.end(); ++i) {
        flat.push_back(i->first[0]);
        flat.push_back(i->first[1]);
        flat.push_back(i->first.size() > 2 ? i->first[2] : -1);
        flat.push_back(i->second.n);
        flat.push_back(i->second.acc);
        flat.push_back(i->second.rmin);
        flat.push_back(i->second.rmax);
    }
    out.kl("stats", flat);
}

// ---------------------------------------------------------------- recording parameters of the schedule check
struct Book { long tick, drawn; vd log; Book() : tick(0), drawn(0) {} };
class RecParam : public Parameter<arma::vec> {
public:
    Book* book; int index; int dim;
    RecParam(Book* b, int i, int d, bool track) : Parameter<arma::vec>(track, "par" + std::to_string(i)), book(b), index(i), dim(d) {
        value_ = arma::zeros<arma::vec>(d);
        log_posterior_ = 0;
    }
    arma::vec made(double x) { arma::vec v(dim); v.fill(x); v(dim - 1) += 1000.0 * index; return v; }
    double LogDensity(arma::vec v) { return v(0); }
    arma::vec StartingValue() { book->drawn++; return made(-1); }
    arma::vec SetStartingValue(arma::vec init) { arma::vec v = init; v(dim - 1) += 1000.0 * index; return v; }
    void note(int what) { book->log.push_back(what); book->log.push_back(value_(0)); }
    arma::vec RandomPosterior() { note(100 + index); return made(++book->tick); }
};
class RecStep : public Step {
public:
    RecParam& par; int index;
    RecStep(RecParam& p, int i) : par(p), index(i) {}
    void DoStep() { par.note(index); par.Save(par.made(++par.book->tick)); }
    std::string ParameterLabel() { return par.Label(); }
    std::string ParameterValue() { return par.StringValue(); }
    bool ParameterTrack() { return par.Track(); }
    BaseParameter* GetParPointer() { return &par; }
};
class TickProposal : public Proposal<arma::vec> {
public:
    RecParam* par; int index;
    arma::vec Draw(arma::vec) { par->note(index); return par->made(++par->book->tick); }
    double LogDensity(arma::vec, arma::vec) { return 0.0; }
};

// ---------------------------------------------------------------- draws of the generator
static double variate(const std::string& law, double a, double b, double c) {
    if (law == "exp") return RandGen.exp(a);
    if (law == "normal") return RandGen.normal(a, b);
    if (law == "lognormal") return RandGen.lognormal(a, b);
    if (law == "uniform") return RandGen.uniform(a, b);
    if (law == "uniformint") return RandGen.uniform((int)a, (int)b);
    if (law == "powerlaw") return RandGen.powerlaw(a, b, c);
    if (law == "student") return RandGen.tdist(a, b, c);
    if (law == "chisqr") return RandGen.chisqr((int)a);
    if (law == "invchisqr") return RandGen.scaled_inverse_chisqr((int)a, b);
    if (law == "gamma") return RandGen.gamma(a, b);
    if (law == "invgamma") return RandGen.invgamma(a, b);
    std::cerr << "driver: unknown law " << law << "\n";
    std::exit(3);
}

// counts of draws not above each grid point, singly and for two successive draws
struct Counter {
    vd xs; std::vector<double> one, two; bool have; double prev; long bad;
    explicit Counter(const vd& x) : xs(x), one(x.size(), 0.0), two(x.size(), 0.0), have(false), prev(0), bad(0) {}
    void add(double v) {
        if (!std::isfinite(v)) bad++;
        for (size_t i = 0; i < xs.size(); i++) {
            if (v <= xs[i]) { one[i]++; if (have && prev <= xs[i]) two[i]++; }
        }
        prev = v; have = true;
    }
    void write(Out& out) { out.kl("one", one); out.kl("two", two); out.ki("bad", bad); }
};

static vd demoT() { vd t; double x = 0; for (int i = 0; i < 12; i++) { t.push_back(x); x += 0.7 + 0.3 * ((i * 7) % 5); } return t; }
static vd demoY() { vd y; for (int i = 0; i < 12; i++) y.push_back(std::sin(1.3 * i) + 0.2 * ((i * 5) % 3)); return y; }
static vd demoE() { return vd(12, 0.1); }

static vd drawKind(int k) {
    switch (k) {
        case 0: return vd(1, RandGen.exp(1.5));
        case 1: return vd(1, RandGen.normal(0.5, 2.0));
        case 2: { arma::mat c(2, 2); c(0, 0) = 2; c(1, 1) = 1; c(0, 1) = c(1, 0) = 0.5; return V(RandGen.normal(c)); }
        case 3: return vd(1, RandGen.lognormal(0.1, 0.7));
        case 4: return vd(1, RandGen.uniform(-1.0, 3.0));
        case 5: { vd v; for (int i = 0; i < 8; i++) v.push_back(RandGen.uniform(0, 1000000)); return v; }
        case 6: return vd(1, RandGen.powerlaw(0.5, 2.0, -0.5));
        case 7: return vd(1, RandGen.tdist(8.0, 0.0, 1.0));
        case 8: return vd(1, RandGen.chisqr(5));
        case 9: return vd(1, RandGen.scaled_inverse_chisqr(5, 1.2));
        case 10: return vd(1, RandGen.gamma(2.5, 0.8));
        case 11: return vd(1, RandGen.invgamma(2.5, 0.8));
        case 12: { CAR1 m(true, "a", demoT(), demoY(), demoE()); return V(m.StartingValue()); }
        case 13: { CARMA m(true, "b", demoT(), demoY(), demoE(), 3, 1); return V(m.StartingValue()); }
        case 14: { ZCARMA m(true, "c", demoT(), demoY(), demoE(), 2); return V(m.StartingValue()); }
        case 15: {
            KalmanFilter1 f(demoT(), demoY(), demoE(), 1.3, 0.4);
            vd ts = { 2.05, 30.0, -1.0, 5.55 };
            vd v = f.Simulate(ts), ma = { 1.0, 0.5 };
            std::vector<std::complex<double> > om = { { -0.3, 0.8 }, { -0.3, -0.8 } };
            KalmanFilterp g(demoT(), demoY(), demoE(), 1.3, om, ma);
            vd w = g.Simulate(ts);
            v.insert(v.end(), w.begin(), w.end());
            return v;
        }
        default: {
            std::shared_ptr<CARp> r = RunCarmaSampler(4, 6, demoT(), demoY(), demoE(), 2, 1, 3);
            vd v;
            std::vector<vd> s = r->getSamples(), one = RunCar1Sampler(3, 4, demoT(), demoY(), demoE())->getSamples();
            s.insert(s.end(), one.begin(), one.end());
            std::vector<vd> z = RunCarmaSampler(2, 3, demoT(), demoY(), demoE(), 2, 1, 2, true)->getSamples();
            s.insert(s.end(), z.begin(), z.end());
            for (size_t i = 0; i < s.size(); i++) v.insert(v.end(), s[i].begin(), s[i].end());
            return v;
        }
    }
}

static std::string slurp(const std::string& f) { std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf(); return s.str(); }

int main(int argc, char** argv) {
    In in(argv[1]);
    Out out(argv[2]);
    std::string op;
    while (in.word(op)) {
        std::string id = in.str();
        out.begin();
        out.ks("op", op);
        out.ks("id", id);
        try {
        if (op == "seed") {
            RandGen.SetSeed((unsigned long)in.num());
        } else if (op == "var") {
            std::string law = in.str();
            vd par = in.vec(3), other = in.vec(3);
            int n = in.integer(), mix = in.integer();
            Counter c(in.lvec());
            for (int i = 0; i < n; i++) {
                if (mix) variate(law, other[0], other[1], other[2]);
                c.add(variate(law, par[0], par[1], par[2]));
            }
            c.write(out);
        } else if (op == "mvn" || op == "mvnprop") {
            int d = in.integer();
            vd s = in.vec(d * d), start = in.vec(d);
            arma::mat cov(d, d);
            for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) cov(i, j) = s[i * d + j];
            int n = in.integer(), nw = in.integer();
            std::vector<vd> w;
            std::vector<Counter> c;
            for (int k = 0; k < nw; k++) { w.push_back(in.vec(d)); c.push_back(Counter(in.lvec())); }
            MultiNormalProposal prop(cov);
            double worst = 0;
            for (int i = 0; i < n; i++) {
                arma::vec x = op == "mvn" ? arma::vec(RandGen.normal(cov)) : prop.Draw(A(start));
                if (op == "mvnprop") {
                    worst = std::max(worst, std::fabs(prop.LogDensity(A(start), x) - prop.LogDensity(x, A(start))));
                    x = x - A(start);
                }
                for (int k = 0; k < nw; k++) c[k].add(arma::dot(A(w[k]), x));
            }
            vd one, two; long bad = 0;
            for (int k = 0; k < nw; k++) {
                one.insert(one.end(), c[k].one.begin(), c[k].one.end());
                two.insert(two.end(), c[k].two.begin(), c[k].two.end());
                bad += c[k].bad;
            }
            out.kl("one", one);
            out.kl("two", two);
            out.ki("bad", bad);
            out.kv("correction", worst);
        } else if (op == "prop") {
            std::string kind = in.str();
            double a = in.num(), b = in.num(), start = in.num();
            int n = in.integer(), nrec = in.integer();
            Counter c(in.lvec());
            std::shared_ptr<Proposal<double> > p;
            if (kind == "normal") p = std::make_shared<NormalProposal>(a);
            else if (kind == "student") p = std::make_shared<StudentProposal>(a, b);
            else p = std::make_shared<LogNormalProposal>(a);
            vd rec;
            for (int i = 0; i < n; i++) {
                double x = p->Draw(start);
                c.add(x);
                if (i < nrec) { rec.push_back(x); rec.push_back(p->LogDensity(start, x) - p->LogDensity(x, start)); }
            }
            c.write(out);
            out.kl("rec", rec);
        } else if (op == "stretch") {
            int d = in.integer(), nw = in.integer(), idx = in.integer();
            double a = in.num();
            std::string how = in.str();           // how the support is set
            Names names;
            names.lds = vd(nw + 1, 0.0);
            Ensemble<MemoParam<arma::vec> > ens;
            std::vector<arma::vec> xs;
            for (int k = 0; k < nw; k++) {
                ens.AddObject(new MemoParam<arma::vec>(&names, 1.0));
                xs.push_back(A(in.vec(d)));
                ens[k].force(xs[k], k);
            }
            int n = in.integer(), nrec = in.integer();
            Counter c(in.lvec());
            std::shared_ptr<StretchProposal<MemoParam<arma::vec> > > p;
            if (how == "default") p = std::make_shared<StretchProposal<MemoParam<arma::vec> > >(ens, idx);
            else if (how == "ctor") p = std::make_shared<StretchProposal<MemoParam<arma::vec> > >(ens, idx, a);
            else { p = std::make_shared<StretchProposal<MemoParam<arma::vec> > >(ens, idx, 3.0); p->SetScalingSupport(a); }
            vd picks(nw, 0.0), rec;
            double worst = 0;
            for (int i = 0; i < n; i++) {
                arma::vec x = p->Draw(xs[idx]);
                double corr = p->LogDensity(xs[idx], x) - p->LogDensity(x, xs[idx]);
                // which other member, and which scale
                int best = -1; double bz = 0, br = 1e300;
                for (int k = 0; k < nw; k++) if (k != idx) {
                    arma::vec dir = xs[idx] - xs[k];
                    double z = arma::dot(x - xs[k], dir) / arma::dot(dir, dir);
                    double r = arma::norm(x - xs[k] - z * dir, 2) / arma::norm(dir, 2);
                    if (r < br) { br = r; best = k; bz = z; }
                }
                picks[best]++;
                worst = std::max(worst, br);
                c.add(bz);
                if (i < nrec) { rec.push_back(corr); rec.push_back(best); rec.push_back(bz); for (int j = 0; j < d; j++) rec.push_back(x(j)); }
            }
            c.write(out);
            out.kl("picks", picks);
            out.kv("worst", worst);
            out.kl("rec", rec);
        } else if (op == "chain") {
            std::string type = in.str();
            vd temps = in.lvec(), lds = in.vec(temps.size());
            int n = in.integer();
            std::vector<ChainOp> ops;
            for (int i = 0; i < n; i++) {
                ChainOp o;
                o.exchange = in.str() == "x";
                o.chain = in.integer();
                o.ram = in.integer() == 1;
                std::string kind = in.str();
                double v = in.num();
                o.ld = ldOf(kind, v);
                o.back = in.num();
                o.forth = in.num();
                ops.push_back(o);
            }
            int reps = in.integer(), full = in.integer();
            if (type == "vec") runChains<arma::vec>(out, temps, lds, ops, reps, full);
            else runChains<double>(out, temps, lds, ops, reps, full);
        } else if (op == "ram") {
            int d = in.integer();
            double target = in.num(), decay = in.num();
            int maxiter = in.integer(), how = in.integer();
            double temp = in.num(), ld0 = in.num();
            vd s = in.vec(d * d), x0 = in.vec(d);
            arma::mat cov(d, d);
            for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) cov(i, j) = s[i * d + j];
            Names names;
            names.lds.push_back(ld0);
            MemoParam<arma::vec> par(&names, temp);
            par.force(A(x0), 0);
            ScriptUnits units;
            AdaptiveMetro step(par, units, cov, how ? 0.5 : target, maxiter);
            if (how) step.SetTargetRate(target);
            step.SetDecayRate(decay);
            int n = in.integer();
            vd disp, covs, lds, acc, ratio, rates;
            arma::mat c0 = step.GetCovariance();
            covs.insert(covs.end(), c0.begin(), c0.end());
            long wrong = 0;
            for (int k = 0; k < n; k++) {
                vd u = in.vec(d);
                std::string kind = in.str();
                double v = in.num();
                names.lds.push_back(ldOf(kind, v));
                names.pending = k + 1;
                units.u = u;
                units.at = 0;
                arma::vec old = par.Value();
                int before = par.current();
                step.DoStep();
                if (units.at != (size_t)d) wrong++;
                arma::vec dd = par.last - old;
                disp.insert(disp.end(), dd.begin(), dd.end());
                arma::mat c = step.GetCovariance();
                covs.insert(covs.end(), c.begin(), c.end());
                acc.push_back(par.current() != before);
                lds.push_back(par.GetLogDensity());
                ratio.push_back(step.GetMetroRatio());
                rates.push_back(step.GetAcceptRate());
            }
            out.kl("disp", disp);
            out.kl("covs", covs);
            out.kl("acc", acc);
            out.kl("lds", lds);
            out.kl("ratio", ratio);
            out.kl("rates", rates);
            out.ki("wrong", wrong);
        } else if (op == "realexchange") {
            // an ensemble of CARMA or CAR posteriors: exchanges, then every chain re-evaluated
            int p = in.integer(), q = in.integer(), n = in.integer();
            vd temps = in.lvec(), t = in.lvec(), y = in.lvec(), e = in.lvec();
            int K = temps.size();
            Ensemble<CARp> ens;
            for (int i = 0; i < K; i++) {
                if (q == 0) ens.AddObject(new CARp(false, "c", t, y, e, p, temps[i]));
                else ens.AddObject(new CARMA(false, "c", t, y, e, p, q, temps[i]));
                arma::vec v = ens[i].StartingValue();
                static_cast<Parameter<arma::vec>&>(ens[i]).Save(v);
            }
            vd rec;                                   // per exchange: chain, L_hot, L_cold before; swapped; ratio; faults
            for (int k = 0; k < n; k++) {
                int i = 1 + k % (K - 1);
                std::vector<arma::vec> v0;
                vd l0;
                for (int c = 0; c < K; c++) { v0.push_back(ens[c].Value()); l0.push_back(ens[c].GetLogDensity()); }
                ExchangeStep<arma::vec, CARp> x(ens[i], i, ens);
                x.DoStep();
                bool swapped = V(ens[i].Value()) != V(v0[i]);
                int faults = 0;
                for (int c = 0; c < K; c++) {
                    int src = swapped ? (c == i ? i - 1 : c == i - 1 ? i : c) : c;
                    if (V(ens[c].Value()) != V(v0[src]) || ens[c].GetLogDensity() != l0[src]) faults++;
                    double again = ens[c].LogDensity(ens[c].Value());
                    if (!(std::fabs(again - ens[c].GetLogDensity()) <= 1e-9 * (1 + std::fabs(again)))) faults++;
                    if (ens[c].GetTemperature() != temps[c]) faults++;
                }
                double r[6] = { (double)i, l0[i], l0[i - 1], (double)swapped, x.GetMetroRatio(), (double)faults };
                rec.insert(rec.end(), r, r + 6);
                if (k % 3 == 2) {
                    // new value for one chain
                    int c = (k * 7) % K;
                    arma::vec v = ens[c].StartingValue();
                    static_cast<Parameter<arma::vec>&>(ens[c]).Save(v);
                }
            }
            out.kl("rec", rec);
        } else if (op == "sampler") {
            int dim = in.integer(), np = in.integer();
            vd track = in.vec(np);
            Book book;
            std::vector<std::shared_ptr<RecParam> > pars;
            for (int i = 0; i < np; i++) pars.push_back(std::make_shared<RecParam>(&book, i, dim, track[i] != 0));
            std::vector<std::shared_ptr<TickProposal> > props;
            int ns = in.integer();
            std::vector<std::pair<int, std::string> > plan;
            for (int k = 0; k < ns; k++) {
                int par = in.integer();
                plan.push_back(std::make_pair(par, in.str()));
            }
            int runs = in.integer();
            std::shared_ptr<Sampler> sampler;
            for (int r = 0; r < runs; r++) {
                bool fresh = in.integer() != 0;
                int samples = in.integer(), burnin = in.integer(), thin = in.integer();
                vd init = in.lvec();
                if (fresh) {
                    sampler = thin == 1 && ns % 2 ? std::make_shared<Sampler>(samples, burnin)
                                                  : std::make_shared<Sampler>(samples, burnin, thin);
                    for (int k = 0; k < ns; k++) {
                        int par = plan[k].first;
                        std::string kind = plan[k].second;
                        if (kind == "rec") sampler->AddStep(new RecStep(*pars[par], k));
                        else if (kind == "gibbs") sampler->AddStep(new GibbsStep<arma::vec>(*pars[par]));
                        else {
                            props.push_back(std::make_shared<TickProposal>());
                            props.back()->par = pars[par].get();
                            props.back()->index = k;
                            sampler->AddStep(new MetropStep<arma::vec>(*pars[par], *props.back(), burnin + 1));
                        }
                    }
                }
                if (r == 0) {
                    out.ki("steps", sampler->NumberOfSteps());
                    out.ki("tracked", sampler->NumberOfTrackedSteps());
                    std::set<std::string> names = sampler->GetTrackedNames();
                    std::string all;
                    for (std::set<std::string>::iterator i = names.begin(); i != names.end(); ++i) all += *i + " ";
                    out.ks("names", all);
                }
                book.log.clear();
                sampler->Run(A(init));
                std::string tag = std::to_string(r);
                out.kl(("log" + tag).c_str(), book.log);
                for (int i = 0; i < np; i++) {
                    std::vector<arma::vec> s = pars[i]->GetSamples();
                    vd flat, lp = pars[i]->GetLogLikes();
                    for (size_t k = 0; k < s.size(); k++) for (size_t j = 0; j < s[k].n_elem; j++) flat.push_back(s[k](j));
                    out.kl(("val" + tag + "_" + std::to_string(i)).c_str(), flat);
                    out.kl(("lp" + tag + "_" + std::to_string(i)).c_str(), lp);
                    out.ki(("n" + tag + "_" + std::to_string(i)).c_str(), s.size());
                }
            }
        } else if (op == "draw") {
            out.kl("v", drawKind(in.integer()));
        } else if (op == "savestate") {
            RandGen.SaveSeed(in.str());
        } else if (op == "recover") {
            RandGen.RecoverSeed(in.str());
        } else if (op == "prompt") {
            std::string dir = in.str();
            int n = in.integer();
            std::string text;
            for (int i = 0; i < n; i++) text += in.str() + (i % 3 == 2 ? "  \n" : "\n");
            std::istringstream input(text + "left over\n");
            std::streambuf* was = std::cin.rdbuf(input.rdbuf());
            RandGen.SetSeed(31337);
            MCMCOptions o = mcmc_options_prompt(dir);
            std::string rest;
            std::cin >> rest;
            std::cin.rdbuf(was);
            std::cin.clear();
            vd raw;
            for (int i = 0; i < 4; i++) raw.push_back(RandGen.uniform(0.0, 1.0));
            out.ks("data", o.data_file);
            out.ks("outfile", o.out_file);
            out.ki("samples", o.sample_size);
            out.ki("thin", o.thin);
            out.ki("burnin", o.burnin);
            out.ki("chains", o.chains);
            out.ks("rest", rest);
            out.kl("raw", raw);
        } else if (op == "raw") {
            vd raw;
            for (int i = 0; i < 4; i++) raw.push_back(RandGen.uniform(0.0, 1.0));
            out.kl("raw", raw);
        } else if (op == "file") {
            std::string s = slurp(in.str());
            out.ki("size", s.size());
        } else {
            std::cerr << "driver: unknown command " << op << "\n";
            return 3;
        }
        } catch (const std::exception& ex) {
            std::string w;
            for (const char* c = ex.what(); *c; c++) w += (*c == '"' || *c == '\\' || *c == '\n') ? ' ' : *c;
            out.ks("exception", w);
        }
        out.end();
    }
    return 0;
}
