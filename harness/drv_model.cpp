// Conformance driver for the filters and the posterior classes: executes a list
// of calls read from a file and writes one JSON line per call.
#include <armadillo>
#include <random.hpp>
#include <proposals.hpp>
#include <samplers.hpp>
#include <steps.hpp>
#include <parameters.hpp>
#include "include/carpack.hpp"
#include "include/carmcmc.hpp"
#include "common.hpp"

static arma::vec A(const vd& v) { return arma::vec(v); }
static vd V(const arma::vec& a) { return vd(a.begin(), a.end()); }

struct Filt {
    std::shared_ptr<KalmanFilter1> k1;
    std::shared_ptr<KalmanFilterp> kp;
};

struct Post {
    std::string kind;
    std::shared_ptr<CAR1> car1;
    std::shared_ptr<CARp> carp;
    std::shared_ptr<CARMA> carma;
    std::shared_ptr<ZCAR> zcar;
    std::shared_ptr<ZCARMA> zcarma;
};

template <class F> static void on(Filt& x, F f) { if (x.k1) f(*x.k1); else f(*x.kp); }
template <class F> static void onPost(Post& x, F f) {
    if (x.car1) f(*x.car1);
    else if (x.carma) f(*x.carma);
    else if (x.zcar) f(*x.zcar);
    else if (x.zcarma) f(*x.zcarma);
    else f(*x.carp);
}
// the same, for the classes with several roots
template <class F> static void onRoots(Post& x, F f) {
    if (x.carma) f(*x.carma);
    else if (x.zcar) f(*x.zcar);
    else if (x.zcarma) f(*x.zcarma);
    else f(*x.carp);
}

int main(int argc, char** argv) {
    In in(argv[1]);
    Out out(argv[2]);
    std::map<std::string, Filt> filt;
    std::map<std::string, Post> post;
    std::string op;
    while (in.word(op)) {
        std::string id = in.str();
        out.begin();
        out.ks("op", op);
        out.ks("id", id);
        try {
        if (op == "filter_new") {
            // ctor: v = std::vector, a = armadillo, s = series only, parameters set afterwards
            std::string kind = in.str(), ctor = in.str();
            vd t = in.lvec(), y = in.lvec(), e = in.lvec();
            double sigsqr = in.num();
            vd re = in.lvec(), im = in.lvec(), ma = in.lvec();
            Filt f;
            arma::vec at = A(t), ay = A(y), ae = A(e), ama = A(ma);
            if (kind == "kf1") {
                if (ctor == "v") f.k1 = std::make_shared<KalmanFilter1>(t, y, e, sigsqr, re[0]);
                else if (ctor == "a") f.k1 = std::make_shared<KalmanFilter1>(at, ay, ae, sigsqr, re[0]);
                else {
                    f.k1 = std::make_shared<KalmanFilter1>(at, ay, ae);
                    f.k1->SetSigsqr(sigsqr);
                    f.k1->SetOmega(re[0]);
                }
            } else {
                std::vector<std::complex<double> > om;
                arma::cx_vec aom(re.size());
                for (size_t i = 0; i < re.size(); i++) {
                    om.push_back(std::complex<double>(re[i], im[i]));
                    aom(i) = om.back();
                }
                if (ctor == "v") f.kp = std::make_shared<KalmanFilterp>(t, y, e, sigsqr, om, ma);
                else if (ctor == "a") f.kp = std::make_shared<KalmanFilterp>(at, ay, ae, sigsqr, aom, ama);
                else {
                    f.kp = std::make_shared<KalmanFilterp>(at, ay, ae);
                    f.kp->SetSigsqr(sigsqr);
                    f.kp->SetOmega(aom);
                    ama.resize(re.size());
                    f.kp->SetMA(ama);
                }
            }
            filt[id] = f;
        } else if (op == "filter_drop") { filt.erase(id);
        } else if (op == "filter") {
            on(filt[id], [&](auto& k) { k.Filter(); out.kl("mean", k.GetMeanSvec()); out.kl("var", k.GetVarSvec()); });
        } else if (op == "update") {
            int n = in.integer();
            on(filt[id], [&](auto& k) {
                k.Reset();
                for (int i = 0; i < n; i++) k.Update();
                out.kl("mean", k.GetMeanSvec()); out.kl("var", k.GetVarSvec());
            });
        } else if (op == "predict") {
            double t = in.num();
            on(filt[id], [&](auto& k) { std::pair<double, double> r = k.Predict(t); out.kv("mean", r.first); out.kv("var", r.second); });
        } else if (op == "simulate") {
            vd t = in.lvec();
            on(filt[id], [&](auto& k) { out.kl("values", k.Simulate(t)); });
        } else if (op == "simulate_many") {
            // repeated draws, reported one after the other
            int m = in.integer();
            vd t = in.lvec(), all;
            on(filt[id], [&](auto& k) { for (int i = 0; i < m; i++) { vd s = k.Simulate(t); all.insert(all.end(), s.begin(), s.end()); } });
            out.kl("values", all);
        } else if (op == "setsig") {
            double s = in.num();
            on(filt[id], [&](auto& k) { k.SetSigsqr(s); });
        } else if (op == "setomega") {
            vd re = in.lvec(), im = in.lvec();
            if (filt[id].k1) filt[id].k1->SetOmega(re[0]);
            else {
                arma::cx_vec om(re.size());
                for (size_t i = 0; i < re.size(); i++) om(i) = std::complex<double>(re[i], im[i]);
                filt[id].kp->SetOmega(om);
            }
        } else if (op == "setma") {
            vd ma = in.lvec();
            filt[id].kp->SetMA(A(ma));
        } else if (op == "sety") {
            arma::vec y = A(in.lvec());
            on(filt[id], [&](auto& k) { k.SetTimeSeries(y); });
        } else if (op == "settime") {
            arma::vec t = A(in.lvec());
            on(filt[id], [&](auto& k) { k.SetTime(t); });
        } else if (op == "sete") {
            arma::vec e = A(in.lvec());
            on(filt[id], [&](auto& k) { k.SetTimeSeriesErr(e); });
        } else if (op == "fdata") {
            on(filt[id], [&](auto& k) {
                out.kl("t", V(k.GetTime())); out.kl("y", V(k.GetTimeSeries())); out.kl("e", V(k.GetTimeSeriesErr()));
            });
        } else if (op == "seed") {
            // id is the seed
            RandGen.SetSeed(std::stoul(id));
        } else if (op == "post_new") {
            Post x;
            x.kind = in.str();
            int p = in.integer(), q = in.integer();
            double temp = in.num();
            vd t = in.lvec(), y = in.lvec(), e = in.lvec();
            if (x.kind == "car1") x.car1 = std::make_shared<CAR1>(true, "par", t, y, e, temp);
            else if (x.kind == "car") x.carp = std::make_shared<CARp>(true, "par", t, y, e, p, temp);
            else if (x.kind == "carma") x.carma = std::make_shared<CARMA>(true, "par", t, y, e, p, q, temp);
            else if (x.kind == "zcar") x.zcar = std::make_shared<ZCAR>(true, "par", t, y, e, p, temp);
            else x.zcarma = std::make_shared<ZCARMA>(true, "par", t, y, e, p, temp);
            post[id] = x;
        } else if (op == "post_drop") { post.erase(id);
        } else if (op == "setprior") {
            double m = in.num();
            onPost(post[id], [&](auto& k) { k.SetPrior(m); });
        } else if (op == "kappa") {
            double lo = in.num(), hi = in.num();
            post[id].zcarma->SetKappaBounds(lo, hi);
        } else if (op == "mle") {
            int on = in.integer();
            onPost(post[id], [&](auto& k) { k.SetMLE(on != 0); });
        } else if (op == "ld") {
            vd th = in.lvec();
            arma::vec a = A(th);
            onPost(post[id], [&](auto& k) {
                out.kv("ld", k.LogDensity(a)); out.kv("ld2", k.getLogDensity(th)); out.kv("lp", k.getLogPrior(th));
            });
        } else if (op == "save") {
            vd th = in.lvec();
            arma::vec a = A(th);
            onPost(post[id], [&](auto& k) {
                Parameter<arma::vec>& par = k;
                par.Save(a);
                out.kv("logpost", par.GetLogDensity()); out.kl("value", V(par.Value()));
            });
        } else if (op == "decode") {
            arma::vec th = A(in.lvec());
            onRoots(post[id], [&](auto& k) {
                arma::cx_vec r = k.ExtractAR(th);
                vd re, im;
                for (size_t i = 0; i < r.n_elem; i++) { re.push_back(r(i).real()); im.push_back(r(i).imag()); }
                out.kl("re", re); out.kl("im", im); out.kl("ma", V(k.ExtractMA(th))); out.kv("sigsqr", k.ExtractSigsqr(th));
            });
        } else if (op == "decode1") {
            arma::vec th = A(in.lvec());
            CAR1& k = *post[id].car1;
            out.kv("omega", k.ExtractAR(th)); out.kv("sigsqr", k.ExtractSigsqr(th));
        } else if (op == "acvf") {
            vd re = in.lvec(), im = in.lvec(), ma = in.lvec(), lags;
            double sigma = in.num();
            lags = in.lvec();
            arma::cx_vec om(re.size());
            for (size_t i = 0; i < re.size(); i++) om(i) = std::complex<double>(re[i], im[i]);
            vd r;
            onRoots(post[id], [&](auto& k) {
                out.kv("var", k.Variance(om, A(ma), sigma));
                for (size_t i = 0; i < lags.size(); i++) r.push_back(k.Variance(om, A(ma), sigma, lags[i]));
            });
            out.kl("acvf", r);
        } else if (op == "polycoefs") {
            vd re = in.lvec(), im = in.lvec();
            arma::cx_vec om(re.size());
            for (size_t i = 0; i < re.size(); i++) om(i) = std::complex<double>(re[i], im[i]);
            out.kl("coefs", V(polycoefs(om)));
        } else if (op == "start") {
            // draw starting values and evaluate them
            int m = in.integer();
            vd all, lds;
            onPost(post[id], [&](auto& k) {
                for (int i = 0; i < m; i++) {
                    arma::vec s = k.StartingValue();
                    lds.push_back(k.LogDensity(s));
                    for (double v : s) all.push_back(v);
                }
            });
            out.kl("theta", all); out.kl("ld", lds);
        } else if (op == "setstart") {
            arma::vec a = A(in.lvec());
            onPost(post[id], [&](auto& k) { arma::vec s = k.SetStartingValue(a); out.kl("theta", V(s)); out.kv("ld", k.LogDensity(s)); });
        } else if (op == "pdata") {
            onPost(post[id], [&](auto& k) {
                out.kl("t", V(k.GetTime())); out.kl("y", V(k.GetTimeSeries())); out.kl("e", V(k.GetTimeSeriesErr()));
            });
        } else if (op == "pfilter") {
            // the filter as left by the last evaluation
            onPost(post[id], [&](auto& k) {
                auto f = k.GetKalmanPtr();
                out.kl("mean", f->GetMeanSvec()); out.kl("var", f->GetVarSvec());
                out.kv("sigsqr", f->GetSigsqr());
            });
        } else {
            std::cerr << "driver: unknown command " << op << "\n";
            return 3;
        }
        } catch (std::exception& ex) {
            std::string w = ex.what(), c;
            for (char ch : w) if (ch != '"' && ch != '\\' && ch >= ' ') c += ch;
            out.ks("exception", c);
        }
        out.end();
    }
    return 0;
}
