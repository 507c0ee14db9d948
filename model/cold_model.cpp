// Reference model of the COLD per-pixel algorithm, written from the description of the method
// (Zhu et al. 2020: robust outlier screening, one-year stable initialisation, look-back, monitoring with the
// minimum change magnitude and mean change angle of `conse` observations, outlier removal, lasso harmonic fits).
// It shares no code with /repo; the numerics use the system's GSL.  Observations are kept in a vector and
// segments are half-open index ranges.
//
// Every comparison that decides something records how close it was to a tie ("margin"), so that the
// checker can leave out the cases in which rounding alone may decide.
#include <gsl/gsl_errno.h>
#include <gsl/gsl_linalg.h>
#include <gsl/gsl_multifit.h>
#include <gsl/gsl_statistics.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <vector>

namespace {
const double PI_ = 3.1415926535897935;
const double YEAR = 365.25;
const int NB = 7;
const int LASSO[5] = {1, 2, 3, 4, 5};
const double T_MAX_CG = 30.8562, T_CONST = 4.42, T_MAX_RECON = 15.0863;
const int MAX_CURVES = 40;

struct Rec {
    int32_t t_start, t_end, t_break, num_obs, category, prob;
    float coefs[7][8];
    float rmse[7];
    float mag[7];
};

struct Obs { int date; float v[7]; };
typedef std::vector<Obs> Series;

struct Stats { double margin; int64_t fits, masks, removed, lookback, refits, slides, breaks; };

struct Run {
    Stats st;
    Run() { memset(&st, 0, sizeof st); st.margin = 1e9; }
    bool gt(double a, double b) {
        double m = std::fabs(a - b) / std::max(std::max(std::fabs(a), std::fabs(b)), 1e-9);
        if (m < st.margin) st.margin = m;
        return a > b;
    }
};

float median(std::vector<float> v) {
    std::sort(v.begin(), v.end());
    size_t n = v.size();
    if (!n) return 0;
    return n % 2 ? v[n / 2] : (float)((v[n / 2 - 1] + v[n / 2]) / 2.0);
}

struct Fit {
    float c[7][8];
    float rmse[7];
    std::vector<float> res[7];
    int df;
};

float basis(int j, int date) {
    const float w = (float)(2 * PI_ / YEAR);
    float x = (float)date;
    switch (j) {
        case 1: return x;
        case 2: return cosf(w * x);
        case 3: return sinf(w * x);
        case 4: return cosf(2 * w * x);
        case 5: return sinf(2 * w * x);
        case 6: return cosf(3 * w * x);
        default: return sinf(3 * w * x);
    }
}

float predict(const float *c, int df, int date) {
    double p = c[0] + (double)c[1] * date / 10000.0;
    for (int j = 2; j < df; j++) p += (double)c[j] * basis(j, date);
    return (float)p;
}

// lasso with lambda 20 by cyclic coordinate descent on standardised predictors (covariance updates)
void lasso(const std::vector<int> &x, const std::vector<float> &y, int df, float *coef, float *rmse,
           std::vector<float> *res, Run &R) {
    R.st.fits++;
    int n = (int)x.size(), p = df - 1;
    for (int j = 0; j < 8; j++) coef[j] = 0;
    std::vector<std::vector<double>> z(p, std::vector<double>(n));
    std::vector<double> xm(p), xs(p);
    std::vector<bool> use(p, true);
    for (int j = 0; j < p; j++) {
        double m = 0, s = 0;
        bool varies = false;
        for (int i = 0; i < n; i++) {
            z[j][i] = basis(j + 1, x[i]);
            if (z[j][i] != z[j][0]) varies = true;
            m += z[j][i] / n;
        }
        for (int i = 0; i < n; i++) s += (z[j][i] - m) * (z[j][i] - m) / n;
        xm[j] = m;
        xs[j] = std::sqrt(s);
        use[j] = varies;
        for (int i = 0; i < n; i++) z[j][i] = varies ? (z[j][i] - m) / xs[j] / std::sqrt((double)n) : 0;
    }
    double ym = 0, ys = 0;
    for (float v : y) ym += v / (double)n;
    std::vector<double> r(n);
    for (int i = 0; i < n; i++) { r[i] = (y[i] - ym) / std::sqrt((double)n); ys += r[i] * r[i]; }
    ys = std::sqrt(ys);
    std::vector<double> a(p, 0.0);
    if (ys > 1e-6 * std::max(1.0, std::fabs(ym))) {
        std::vector<double> g(p, 0.0);
        std::vector<std::vector<double>> C(p, std::vector<double>(p));
        for (int j = 0; j < p; j++) {
            for (int i = 0; i < n; i++) g[j] += z[j][i] * r[i] / ys;
            for (int k = 0; k < p; k++) { C[j][k] = 0; for (int i = 0; i < n; i++) C[j][k] += z[j][i] * z[k][i]; }
        }
        const double thr = 1e-4, lam = 20.0 / ys;
        std::vector<int> active;
        std::vector<bool> in(p, false);
        auto sweep = [&](const std::vector<int> &ord, bool full) {
            double dlx = 0;
            for (int k : ord) {
                double ak = a[k], u = g[k] + ak, v = std::fabs(u) - lam;
                a[k] = v > 0 ? (u < 0 ? -v : v) : 0.0;
                if (a[k] == ak) continue;
                if (full && !in[k]) { in[k] = true; active.push_back(k); }
                double del = a[k] - ak;
                dlx = std::max(dlx, std::fabs(del));
                for (int j = 0; j < p; j++) if (use[j]) g[j] -= C[j][k] * del;
            }
            return dlx;
        };
        std::vector<int> all;
        for (int j = 0; j < p; j++) if (use[j]) all.push_back(j);
        // one full sweep, active-set sweeps to convergence, and again, until a full sweep changes nothing
        for (int guard = 0; guard < 100000; guard++) {
            if (sweep(all, true) < thr) break;
            std::vector<int> act = active;
            while (sweep(act, false) >= thr && guard++ < 100000) {}
        }
    }
    double a0 = ym;
    for (int j = 0; j < p; j++)
        if (a[j] != 0) {
            double b = a[j] * ys / xs[j];
            a0 -= b * xm[j];
            coef[j + 1] = (float)(j == 0 ? b * 10000.0 : b);
        }
    coef[0] = (float)a0;
    // residuals with the model in double precision around the same coefficients
    double ss = 0;
    if (res) res->assign(n, 0.f);
    for (int i = 0; i < n; i++) {
        double p_ = a0;
        for (int j = 0; j < p; j++) if (a[j] != 0) p_ += a[j] * ys / xs[j] * basis(j + 1, x[i]);
        double d = y[i] - p_;
        ss += d * d;
        if (res) (*res)[i] = (float)d;
    }
    *rmse = (float)(std::sqrt(ss) / std::sqrt((double)(n - df)));
}

void fit(const Series &o, int lo, int hi, int df, Fit &f, Run &R) {
    std::vector<int> x;
    for (int i = lo; i < hi; i++) x.push_back(o[i].date);
    std::vector<float> y(hi - lo);
    f.df = df;
    for (int b = 0; b < NB; b++) {
        for (int i = lo; i < hi; i++) y[i - lo] = o[i].v[b];
        lasso(x, y, df, f.c[b], &f.rmse[b], &f.res[b], R);
    }
}

// bisquare iteratively reweighted least squares, at most five iterations
void robust(const gsl_matrix *X, const gsl_vector *y, gsl_vector *c) {
    size_t n = X->size1, p = X->size2;
    double chisq, tune = 4.685, tol = std::sqrt(2.2204460492503131e-16);
    gsl_multifit_linear_workspace *w = gsl_multifit_linear_alloc(n, p);
    gsl_matrix *cov = gsl_matrix_alloc(p, p);
    double low = 1e-6 * gsl_stats_sd(y->data, y->stride, n);
    if (low == 0) low = 1;
    gsl_multifit_linear(X, y, c, cov, &chisq, w);
    gsl_vector *h = gsl_vector_alloc(n), *r = gsl_vector_alloc(n), *wt = gsl_vector_alloc(n), *cp = gsl_vector_alloc(p);
    gsl_matrix_view A = gsl_matrix_submatrix(w->A, 0, 0, n, p);
    gsl_linalg_SV_leverage(&A.matrix, h);
    for (size_t i = 0; i < n; i++) gsl_vector_set(h, i, 1 / std::sqrt(1 - std::min(gsl_vector_get(h, i), 0.9999)));
    gsl_multifit_linear_residuals(X, y, c, r);
    for (int it = 0; it < 5; it++) {
        std::vector<double> ab(n);
        for (size_t i = 0; i < n; i++) {
            gsl_vector_set(r, i, gsl_vector_get(r, i) * gsl_vector_get(h, i));
            ab[i] = std::fabs(gsl_vector_get(r, i));
        }
        std::sort(ab.begin(), ab.end());
        double sig = gsl_stats_median_from_sorted_data(&ab[p - 1], 1, n - p + 1) / 0.6745;
        for (size_t i = 0; i < n; i++) {
            double q = gsl_vector_get(r, i) / (std::max(sig, low) * tune);
            gsl_vector_set(wt, i, std::fabs(q) < 1 ? (1 - q * q) * (1 - q * q) : 0);
        }
        gsl_vector_memcpy(cp, c);
        gsl_multifit_wlinear(X, wt, y, c, cov, &chisq, w);
        gsl_multifit_linear_residuals(X, y, c, r);
        bool conv = true;
        for (size_t j = 0; j < p; j++) {
            double a_ = gsl_vector_get(cp, j), b_ = gsl_vector_get(c, j);
            if (std::fabs(b_ - a_) > tol * std::max(std::fabs(a_), std::fabs(b_))) conv = false;
        }
        if (conv) break;
    }
    gsl_vector_free(h); gsl_vector_free(r); gsl_vector_free(wt); gsl_vector_free(cp);
    gsl_matrix_free(cov);
    gsl_multifit_linear_free(w);
}

std::vector<bool> screen_once(const Series &o, int lo, int hi, double years, const float *minrmse, Run &R, int jitter) {
    int n = hi - lo, p = 5;
    gsl_matrix *X = gsl_matrix_alloc(n, p);
    gsl_vector *y = gsl_vector_alloc(n), *c = gsl_vector_alloc(p);
    double w = 2 * PI_ / YEAR, w2 = w / std::ceil(years);
    for (int i = 0; i < n; i++) {
        double d = o[lo + i].date;
        double row[5] = {1, std::cos(w * d), std::sin(w * d), std::cos(w2 * d), std::sin(w2 * d)};
        for (int j = 0; j < p; j++) {
            double v = row[j];
            if (jitter && j) v *= 1 + 2.3e-16 * (((i * 7 + j * 3) * jitter) % 5 - 2);
            gsl_matrix_set(X, i, j, v);
        }
    }
    std::vector<bool> bad(n, false);
    const int bands[2] = {1, 4};
    for (int q = 0; q < 2; q++) {
        int b = bands[q];
        for (int i = 0; i < n; i++) gsl_vector_set(y, i, o[lo + i].v[b]);
        robust(X, y, c);
        for (int i = 0; i < n; i++) {
            double pr = 0;
            for (int j = 0; j < p; j++) pr += gsl_matrix_get(X, i, j) * gsl_vector_get(c, j);
            if (R.gt(std::fabs(o[lo + i].v[b] - pr), T_CONST * minrmse[b])) bad[i] = true;
        }
    }
    gsl_matrix_free(X); gsl_vector_free(y); gsl_vector_free(c);
    return bad;
}

std::vector<bool> screen(const Series &o, int lo, int hi, double years, const float *minrmse, Run &R) {
    R.st.masks++;
    std::vector<bool> bad = screen_once(o, lo, hi, years, minrmse, R, 0);
    // within a year the two harmonics coincide: the design is singular and the leverages depend on rounding;
    // a decision that changes with the last bit of the design counts as a tie
    if (std::ceil(years) <= 1)
        for (int jit = 1; jit <= 3; jit++)
            if (screen_once(o, lo, hi, years, minrmse, R, jit) != bad) R.st.margin = 0;
    return bad;
}

typedef std::vector<double> Vec;   // five normalised differences

double norm2(const Vec &v) { double s = 0; for (double x : v) s += x * x; return s; }

double mean_angle(const std::vector<Vec> &v) {
    if (v.size() < 2) return 0;
    double sum = 0;
    for (size_t i = 0; i + 1 < v.size(); i++) {
        double d = 0;
        for (int b = 0; b < 5; b++) d += v[i][b] * v[i + 1][b];
        double q = d / std::sqrt(norm2(v[i]) * norm2(v[i + 1]));
        sum += std::acos(std::max(-1.0, std::min(1.0, q))) * 180 / PI_;
    }
    return sum / (v.size() - 1);
}

double decay(double angle) { return angle < 45 ? 1 : angle > 90 ? 0 : (90 - angle) / 45; }

bool usable_range(const int64_t *r, bool c2) {
    if (!(r[1] > -200 && r[1] < 10000)) return false;
    for (int b = 2; b <= 6; b++) if (!(r[b] > 0 && r[b] < 10000)) return false;
    if (!c2 && r[7] != 0) { int64_t t = r[7] * 10 - 27320; if (!(t > -9320 && t < 7070)) return false; }
    return r[8] != 255;
}

void min_rmse_of(const Series &o, float *mr) {
    for (int b = 0; b < NB; b++) {
        std::vector<float> d;
        for (size_t i = 0; i + 1 < o.size(); i++) d.push_back((float)std::abs((int)(o[i + 1].v[b] - o[i].v[b])));
        mr[b] = o.size() == 1 ? 0 : median(d);
    }
}

int coef_count(int span) { return span < 18 ? 4 : span < 24 ? 6 : 8; }

void put(Rec &r, const Fit &f) {
    for (int b = 0; b < NB; b++) { for (int k = 0; k < 8; k++) r.coefs[b][k] = f.c[b][k]; r.rmse[b] = f.rmse[b]; }
}

struct CM { bool on; int interval, start, n; int16_t *val, *date; uint8_t *tie; };

void note(CM &cm, int date, double angle, double mn) {
    if (!cm.on) return;
    int k = (date - cm.start) / cm.interval;
    if (k < 0 || k >= cm.n) return;
    double x = std::floor(decay(angle) * mn * 100 + 0.5);
    int v = x > 32767 ? 32767 : (int)x;
    int16_t d = (int16_t)(date - 723742);
    if (v > cm.val[k]) {
        if (cm.val[k] > -9999 && cm.date[k] != d && v - cm.val[k] <= 2 + 0.003 * v) cm.tie[k] = 1;
        cm.val[k] = (int16_t)v;
        cm.date[k] = d;
    } else if (cm.date[k] != d && cm.val[k] - v <= 2 + 0.003 * v)
        cm.tie[k] = 1;
}

int few(const int64_t *rows, int n, bool snow, bool c2, Rec *out, Run &R) {
    Series o;
    for (int i = 0; i < n; i++) {
        const int64_t *r = rows + 9 * i;
        if (snow ? !(r[8] == 3 || r[8] < 2) : !usable_range(r, c2)) continue;
        if (!o.empty() && o.back().date == r[0]) continue;
        Obs q;
        q.date = (int)r[0];
        for (int b = 0; b < 6; b++) q.v[b] = (float)r[1 + b];
        q.v[6] = c2 ? 0.f : (float)(r[7] * 10 - 27320);
        o.push_back(q);
    }
    if (!snow) {
        std::vector<float> g;
        for (auto &q : o) g.push_back(q.v[1]);
        double lim = median(g) + 400.0;
        Series k;
        for (auto &q : o) if (q.v[1] < lim) k.push_back(q);
        o.swap(k);
    }
    if (o.size() < 12) return 0;
    Rec &r = out[0];
    memset(&r, 0, sizeof r);
    r.t_start = o.front().date;
    r.t_end = o.back().date;
    r.num_obs = (int)o.size();
    r.category = snow ? 54 : 44;
    for (int b = 0; b < NB; b++) {
        std::vector<int> x;
        std::vector<float> y;
        for (auto &q : o) {
            bool keep = !snow || (b < 6 ? q.v[b] > 0 && q.v[b] < 10000 : q.v[6] > -9320 && q.v[6] < 7070);
            if (keep) { x.push_back(q.date); y.push_back(q.v[b]); }
        }
        if (snow && b < 6 && x.size() < 12) { r.coefs[b][0] = 10000; continue; }
        if (x.size() < 5) { r.rmse[b] = NAN; continue; }     // not specified
        lasso(x, y, 4, r.coefs[b], &r.rmse[b], nullptr, R);
    }
    return 1;
}

int kind(const int64_t *rows, int n) {     // 0 standard, 1 snow, 2 insufficient
    int clear = 0, sn = 0;
    for (int i = 0; i < n; i++) { int q = (int)rows[9 * i + 8]; clear += q < 2; sn += q == 3; }
    if (clear >= 24) return 0;
    return (float)sn / (float)(sn + clear + 0.01) > 0.75 ? 1 : 2;
}

Series usable(const int64_t *rows, int n, bool c2) {
    Series o;
    for (int i = 0; i < n; i++) {
        const int64_t *r = rows + 9 * i;
        if (r[8] >= 2 || !usable_range(r, c2)) continue;
        if (!o.empty() && o.back().date == r[0]) continue;
        Obs q;
        q.date = (int)r[0];
        for (int b = 0; b < 6; b++) q.v[b] = (float)r[1 + b];
        q.v[6] = c2 && r[7] == 0 ? 0.f : (float)(r[7] * 10 - 27320);
        o.push_back(q);
    }
    return o;
}

// ------------------------------------------------------------------------------------------------
int standard(const int64_t *rows, int nrows, int conse, double tcg, bool c2, double gap_days, CM &cm, Rec *out, Run &R) {
    Series o = usable(rows, nrows, c2);
    float mr[7];
    min_rmse_of(o, mr);
    int nf = 0, s = 0, e = 12, dense = 0, skip = 0, pre_end = 0;
    bool trained = false, first_fit = false;
    Fit f;
    std::vector<Vec> win;                     // normalised differences of observations e .. e+conse-1
    std::vector<std::vector<float>> mag;      // and raw differences of all bands
    Rec cur;
    memset(&cur, 0, sizeof cur);
    auto norms = [&](const Obs &ob, const float *rm, Vec &v, std::vector<float> &m) {
        v.assign(5, 0);
        m.assign(7, 0);
        for (int b = 0; b < NB; b++) m[b] = ob.v[b] - predict(f.c[b], f.df, ob.date);
        for (int q = 0; q < 5; q++) v[q] = m[LASSO[q]] / std::max(mr[LASSO[q]], rm[q]);
    };
    for (; e + conse <= (int)o.size(); e++) {
        if (e - s < 12 || (o[e - 1].date - o[s].date) / YEAR < 1) continue;
        if (!trained) {
            int gap = 0;
            for (int k = s; k + 1 < e; k++) gap = std::max(gap, o[k + 1].date - o[k].date);
            if (gap > gap_days) { s++; dense = s; continue; }
            std::vector<bool> bad = screen(o, s, e + conse, (float)((o[e + conse - 1].date - o[s].date) / YEAR), mr, R);
            int kept = 0;
            for (int k = 0; k < e - s; k++) kept += !bad[k];
            if (kept < 12) continue;
            Series red(o.begin(), o.begin() + s);
            for (int k = s; k < (int)o.size(); k++) if (k >= e || !bad[k - s]) red.push_back(o[k]);
            if ((red[s + kept - 1].date - red[s].date) / YEAR < 1) continue;
            R.st.removed += (int)o.size() - (int)red.size();
            o.swap(red);
            e = s + kept;
            fit(o, s, e, 4, f, R);
            double sum = 0;
            for (int q = 0; q < 5; q++) {
                int b = LASSO[q];
                double mini = std::max(mr[b], f.rmse[b]);
                double dv = std::fabs(f.c[b][1] * (double)(o[e - 1].date - o[s].date) / mini / 10000) +
                            std::max(std::fabs(f.res[b].front()), std::fabs(f.res[b].back())) / mini;
                sum += dv * dv;
            }
            if (R.gt(sum, tcg)) { s++; continue; }
            trained = true;
            first_fit = true;
            int brk = dense;
            if (nf) for (brk = 0; o[brk].date < out[nf - 1].t_break; brk++) {}
            int last_ini = 0;
            std::vector<std::vector<float>> back;
            for (int k = s - 1; k >= brk; k--) {
                R.st.lookback++;
                int ini = std::min(k - brk + 1, conse);
                float rm[5];
                for (int q = 0; q < 5; q++) rm[q] = f.rmse[LASSO[q]];
                std::vector<Vec> vs(ini);
                back.assign(ini, std::vector<float>());
                double mn = 9999;
                for (int c = 0; c < ini; c++) {
                    norms(o[k - c], rm, vs[c], back[c]);
                    mn = std::min(mn, norm2(vs[c]));
                }
                last_ini = ini;
                double ang = mean_angle(vs);
                if (ini >= conse) note(cm, o[k + 1].date, ang, mn);
                bool a1 = R.gt(mn, tcg), a2 = a1 && !R.gt(ang, 45);
                if (a1 && a2) break;
                if (R.gt(norm2(vs[0]), T_MAX_CG)) { o.erase(o.begin() + k); e--; R.st.removed++; }
                s = k;
            }
            if (nf == 0 && s - dense >= 6) {
                Fit g;
                fit(o, dense, s, 4, g, R);
                Rec &r = out[nf];
                memset(&r, 0, sizeof r);
                r.t_start = o[dense].date;
                r.t_end = o[s - 1].date;
                r.t_break = o[s].date;
                r.category = 14;
                r.prob = 100;
                r.num_obs = s - dense + 1;
                put(r, g);
                for (int b = 0; b < NB; b++) {
                    std::vector<float> m;
                    for (int c = 0; c < last_ini; c++) m.push_back(back[c][b]);
                    r.mag[b] = -median(m);
                }
                if (++nf >= MAX_CURVES) return -1;
            }
        }
        // monitoring
        int span = e - s;
        if (!skip) skip = span;
        int df = coef_count(span);
        if (first_fit || span <= 24) {
            first_fit = false;
            fit(o, s, e, df, f, R);
            pre_end = e;
            memset(&cur, 0, sizeof cur);
            cur.t_start = o[s].date;
            cur.num_obs = span;
            cur.category = df;
            put(cur, f);
            win.assign(conse, Vec());
            mag.assign(conse, std::vector<float>());
            float rm[5];
            for (int q = 0; q < 5; q++) rm[q] = f.rmse[LASSO[q]];
            for (int c = 0; c < conse; c++) norms(o[e + c], rm, win[c], mag[c]);
        } else {
            if (e - pre_end >= 1 && e - pre_end > (int)(skip * 0.03)) {
                R.st.refits++;
                fit(o, s, e, df, f, R);
                pre_end = e;
                skip = span;
                cur.num_obs = span;
                cur.category = df;
                put(cur, f);
            }
            R.st.slides++;
            int nr = 3 * cur.category, m = (int)f.res[0].size();
            std::vector<std::pair<double, int>> d(m);
            for (int k = 0; k < m; k++) {
                double t = o[s + k].date - o[e + conse - 1].date;
                d[k] = std::make_pair(std::fabs(std::round(t / YEAR) * YEAR - t), k);
            }
            std::sort(d.begin(), d.end());
            if (m > nr && d[nr].first - d[nr - 1].first < 1e-3) R.st.margin = 0;
            float rm[5];
            for (int q = 0; q < 5; q++) {
                double ss = 0;
                for (int k = 0; k < nr; k++) { double x = f.res[LASSO[q]][d[k].second]; ss += x * x; }
                rm[q] = (float)(std::sqrt(ss) / std::sqrt((double)(nr - cur.category)));
            }
            win.erase(win.begin());
            mag.erase(mag.begin());
            win.push_back(Vec());
            mag.push_back(std::vector<float>());
            norms(o[e + conse - 1], rm, win.back(), mag.back());
        }
        cur.t_end = o[e - 1].date;
        double ang = mean_angle(win), mn = 9999;
        for (auto &v : win) mn = std::min(mn, norm2(v));
        note(cm, o[e].date, ang, mn);
        bool a1 = R.gt(mn, tcg), a2 = a1 && !R.gt(ang, 45);
        if (a1 && a2) {
            R.st.breaks++;
            cur.t_break = o[e].date;
            cur.prob = 100;
            for (int b = 0; b < NB; b++) {
                std::vector<float> m;
                for (auto &x : mag) m.push_back(x[b]);
                cur.mag[b] = median(m);
            }
            out[nf] = cur;
            if (++nf >= MAX_CURVES) return -1;
            s = e;
            trained = false;
            skip = 0;
        } else if (R.gt(norm2(win[0]), T_MAX_CG)) {
            o.erase(o.begin() + e);
            e--;
            R.st.removed++;
        }
    }
    int n = (int)o.size();
    if (trained) {
        int last = conse;
        for (int c = conse - 1; c >= 0; c--) {
            std::vector<Vec> t(win.begin() + c, win.end());
            bool big = R.gt(norm2(win[c]), tcg);
            bool aligned = big && !R.gt(mean_angle(t), 45);
            if (!big || !aligned) { last = c + 1; break; }
            last = c;
        }
        if (last == 0) last = conse;
        cur.prob = (conse - last) * 100 / conse;
        cur.t_end = o[n - 1 - conse + last].date;
        if (last < conse) {
            cur.t_break = o[n - conse + last].date;
            for (int b = 0; b < NB; b++) {
                std::vector<float> m;
                for (int c = last; c < conse; c++) m.push_back(mag[c][b]);
                cur.mag[b] = median(m);
            }
        }
        out[nf++] = cur;
    } else {
        int b0 = 0;
        if (nf) for (b0 = 0; b0 < n && o[b0].date < out[nf - 1].t_break; b0++) {}
        if (n - b0 >= 6) {
            std::vector<bool> bad = screen(o, b0, n, (float)((o[n - 1].date - o[b0].date) / YEAR), mr, R);
            Series red(o.begin(), o.begin() + b0);
            for (int k = b0; k < n; k++) if (!bad[k - b0]) red.push_back(o[k]);
            o.swap(red);
            n = (int)o.size();
        }
        if (n - b0 >= 6) {
            Fit g;
            fit(o, b0, n, 4, g, R);
            Rec &r = out[nf];
            memset(&r, 0, sizeof r);
            r.t_start = nf ? out[nf - 1].t_break : o[0].date;
            r.t_end = o[n - 1].date;
            r.category = 24;
            r.num_obs = n - b0;
            put(r, g);
            nf++;
        }
    }
    return nf;
}

int rebuild(const int64_t *rows, int nrows, const int64_t *breaks, int nbreaks, int conse, bool c2, Rec *out, Run &R) {
    Series o = usable(rows, nrows, c2);
    float mr[7];
    min_rmse_of(o, mr);
    std::vector<int64_t> req(breaks, breaks + nbreaks), use;
    std::sort(req.begin(), req.end());
    for (int64_t b : req)
        if (b > 0 && (use.empty() ? b : b - use.back()) >= YEAR) use.push_back(b);
    auto nearest = [&](const Series &q, int64_t d) {
        int best = 0;
        for (int i = 0; i < (int)q.size(); i++)
            if (std::llabs(q[i].date - d) < std::llabs(q[best].date - d)) best = i;
        return best;
    };
    int nf = 0, lo = 0;
    for (size_t j = 0; j <= use.size(); j++) {
        bool final = j == use.size();
        int hi = final ? (int)o.size() : nearest(o, use[j]);
        if (hi - lo < 6) continue;
        if (hi - lo >= 12 && !final) {
            std::vector<bool> bad = screen(o, lo, hi, (float)((o[hi - 1].date - o[lo].date + 1) / YEAR), mr, R);
            Series red(o.begin(), o.begin() + lo);
            int kept = 0;
            for (int k = lo; k < (int)o.size(); k++) if (k >= hi || !bad[k - lo]) { red.push_back(o[k]); kept += k < hi; }
            if (kept < 6) continue;
            int df = coef_count(kept);
            Fit f;
            // only the bands that decide are needed, all are fitted
            fit(red, lo, lo + kept, df, f, R);
            Series red2(red.begin(), red.begin() + lo);
            int kept2 = 0;
            for (int k = lo; k < (int)red.size(); k++) {
                bool drop = false;
                if (k < lo + kept) {
                    double sum = 0;
                    for (int q = 0; q < 5; q++) {
                        int b = LASSO[q];
                        double d = (red[k].v[b] - predict(f.c[b], df, red[k].date)) / std::max(mr[b], f.rmse[b]);
                        sum += d * d;
                    }
                    drop = R.gt(sum, T_MAX_RECON);
                    kept2 += !drop;
                }
                if (!drop) red2.push_back(red[k]);
            }
            if (kept2 < 6) continue;
            o.swap(red2);
        }
        hi = final ? (int)o.size() : nearest(o, use[j]);
        if (nf >= MAX_CURVES) return -1;
        int df = coef_count(hi - lo);
        Fit f;
        fit(o, lo, hi, df, f, R);
        Rec &r = out[nf];
        memset(&r, 0, sizeof r);
        r.t_start = o[lo].date;
        r.t_end = o[hi - 1].date;
        r.num_obs = hi - lo + 1;
        r.category = df;
        put(r, f);
        if (!final) {
            r.t_break = o[hi].date;
            r.prob = 100;
            for (int b = 0; b < NB; b++) {
                std::vector<float> m;
                for (int k = hi; k < std::min((int)o.size(), hi + conse); k++)
                    m.push_back(o[k].v[b] - predict(f.c[b], df, o[k].date));
                r.mag[b] = median(m);
            }
            lo = hi;
        }
        nf++;
    }
    if (nf == 0) { int kd = kind(rows, nrows); nf = few(rows, nrows, kd == 1, c2, out, R); }
    if (nf) { out[nf - 1].prob = 0; out[nf - 1].t_break = 0; for (int b = 0; b < NB; b++) out[nf - 1].mag[b] = 0; }
    return nf;
}
}  // namespace

extern "C" {
int rec_size() { return (int)sizeof(Rec); }

int model_cold(const int64_t *rows, int n, int conse, double tcg, int c2, double gap_days, int cm_on, int interval, int start,
               int n_cm, int16_t *cmv, int16_t *cmd, uint8_t *tie, Rec *out, Stats *st) {
    Run R;
    CM cm = {cm_on != 0, interval, start, n_cm, cmv, cmd, tie};
    int k = kind(rows, n);
    int r = k ? few(rows, n, k == 1, c2, out, R) : standard(rows, n, conse, tcg, c2, gap_days, cm, out, R);
    *st = R.st;
    return r;
}

int model_rebuild(const int64_t *rows, int n, const int64_t *breaks, int nb, int conse, int c2, Rec *out, Stats *st) {
    Run R;
    int k = kind(rows, n);
    int r;
    if (k) {
        r = few(rows, n, k == 1, c2, out, R);
    } else
        r = rebuild(rows, n, breaks, nb, conse, c2, out, R);
    *st = R.st;
    return r;
}
}
