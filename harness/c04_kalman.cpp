// C04: the recursive filter's estimate is the optimal linear fusion and its covariance never becomes invalid.
#include "config.hpp"
#include "geo.hpp"
#include "tracking/kalman_filter.hpp"
using namespace rgbd_slam;
using mon::check;
using mon::near;

template<int N, int M> static void run(mon::Ctx& c)
{
    using VN = Eigen::Vector<double, N>;
    using VM = Eigen::Vector<double, M>;
    using MN = Eigen::Matrix<double, N, N>;
    using MM = Eigen::Matrix<double, M, M>;
    using MH = Eigen::Matrix<double, M, N>;
    MN F = MN::Identity();
    if (c.coin(0.6)) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (c.coin(0.4)) F(i, j) += c.gauss() * 0.3;
    MH H = MH::Zero();
    for (int i = 0; i < M; ++i) H(i, i) = 1;
    if (c.coin(0.6)) for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) H(i, j) += c.gauss() * 0.4;
    const MN Q = ref::rand_cov(c, N, 1e-4, 1e-1);
    const double scale = c.logu(0.05, 200);
    MN P = ref::rand_cov(c, N, 0.1 * scale, 10 * scale);
    VN x;
    for (int i = 0; i < N; ++i) x(i) = c.uni(-1000, 1000);
    tracking::SharedKalmanFilter<N, M> shared(F, H, Q);
    tracking::KalmanFilter<N, M> own(F, H, Q);
    {
        bool threw = false;
        try { own.update(VM::Zero(), MM(MM::Identity())); } catch (const std::exception&) { threw = true; }
        check(threw && !own.is_initialized(), "update_before_init_refused", "dim %d", N);
    }
    own.init(P, x);
    check(own.is_initialized() && own.get_state() == x && own.get_state_covariance() == P, "init_state", "dim %d", N);
    VN rx = x;
    MN rP = P;
    const bool varying = N == M && c.coin(0.3);
    const int steps = (int)c.irange(1, 12);
    for (int k = 0; k < steps; ++k)
    {
        VM z;
        for (int i = 0; i < M; ++i) z(i) = c.uni(-1000, 1000);
        const MM R = ref::rand_cov(c, M, 0.1 * scale, 10 * scale);
        // a filter can be started again from another state: nothing of its past is left
        if (c.coin(0.1))
        {
            rP = ref::rand_cov(c, N, 0.1 * scale, 10 * scale);
            for (int i = 0; i < N; ++i) rx(i) = c.uni(-1000, 1000);
            own.init(rP, rx);
            check(own.is_initialized() && own.get_state() == rx && own.get_state_covariance() == rP, "started_again", "dim %d,%d step %d", N, M, k);
            mon::observe("events.restarts");
        }
        // the dynamics can change at every step
        const MN Fk = varying ? MN(F + 0.2 * MN::NullaryExpr([&c](Eigen::Index, Eigen::Index) { return c.gauss(); })) : F;
        // refused measurement leaves the filter as it was
        if (c.coin(0.2))
        {
            MM bad = R;
            const int i = (int)c.irange(0, M - 1);
            bad(i, i) = c.coin() ? std::nan("") : -R.norm();
            bool threw = false;
            const VN sx = own.get_state();
            const MN sP = own.get_state_covariance();
            try { own.update(z, bad); } catch (const std::exception&) { threw = true; }
            check(threw && own.get_state() == sx && own.get_state_covariance() == sP, "invalid_measurement_covariance_refused", "dim %d,%d", N, M);
            MN badP = rP;
            badP(0, 0) = c.coin() ? INFINITY : -rP.norm();
            threw = false;
            try { (void)shared.get_new_state(rx, badP, z, R); } catch (const std::exception&) { threw = true; }
            check(threw, "invalid_state_covariance_refused", "dim %d,%d", N, M);
        }
        // reference, with a covariance form that is valid by construction
        const VN xp = Fk * rx;
        const MN Pp = Fk * rP * Fk.transpose() + Q;
        const MM S = H * Pp * H.transpose() + R;
        const Eigen::Matrix<double, N, M> K = S.ldlt().solve(H * Pp).transpose();
        const VN xn = xp + K * (z - H * xp);
        const MN A = MN::Identity() - K * H;
        MN Pn = A * Pp * A.transpose() + K * R * K.transpose();
        Pn = (0.5 * (Pn + Pn.transpose())).eval();
        tracking::SharedKalmanFilter<N, M> changed(Fk, H, Q);
        const auto res = (varying ? changed : shared).get_new_state(rx, rP, z, R);
        check(ref::mnear(res.first, xn, 1e-6, 1e-6), "fused_state", "dim %d,%d step %d: error %.3g", N, M, k, (res.first - xn).cwiseAbs().maxCoeff());
        check(ref::mnear(res.second, Pn, 1e-6, 1e-12), "fused_covariance", "dim %d,%d step %d: error %.3g of %.3g", N, M, k, (res.second - Pn).cwiseAbs().maxCoeff(), Pn.cwiseAbs().maxCoeff());
        check(utils::is_covariance_valid(res.second) && ref::psd(res.second) && ref::mnear(res.second, MN(res.second.transpose()), 1e-12, 0), "fused_covariance_valid", "dim %d,%d step %d", N, M, k);
        // an observation never makes the estimate less certain than the prediction
        check(ref::psd(MN(Pp - res.second + 1e-9 * Pp.norm() * MN::Identity()), 1e-7), "observation_does_not_lose_certainty", "dim %d,%d", N, M);
        if constexpr (N == M)
        {
            if (varying) own.update(z, R, Fk);
            else own.update(z, R);
        }
        else own.update(z, R);
        check(ref::mnear(own.get_state(), res.first, 1e-7, 1e-7) && ref::mnear(own.get_state_covariance(), res.second, 1e-7, 1e-12), "stateful_filter_agrees", "dim %d,%d step %d", N, M, k);
        rx = res.first;
        rP = res.second;
        mon::observe("events.updates");
    }
    mon::nontrivial("kalman", mon::fmt("%d %d %d %d", N, M, steps, (int)(std::log(scale) * 3)));
    if (steps > 6) mon::sample("kalman", mon::fmt("dims %d,%d, %d updates, final trace %.4g", N, M, steps, rP.trace()));
}

MON_TEST(filter_history, 1200, 25000)
{
    run<3, 3>(c); run<4, 4>(c); run<6, 3>(c); run<3, 1>(c);
}

MON_TEST(degenerate_certainty, 800, 10000)
{
    // no uncertainty at all on both sides: the innovation cannot be inverted; the filter refuses or answers soundly
    using F3 = tracking::SharedKalmanFilter<3, 3>;
    const bool noQ = c.coin();
    F3 f(matrix33::Identity(), matrix33::Identity(), noQ ? matrix33(matrix33::Zero()) : matrix33(matrix33::Identity() * 1e-9));
    const vector3 x(c.uni(-100, 100), c.uni(-100, 100), c.uni(-100, 100)), z(c.uni(-100, 100), c.uni(-100, 100), c.uni(-100, 100));
    matrix33 P = matrix33::Zero(), R = matrix33::Zero();
    const int k = (int)c.irange(0, 3);
    for (int i = 0; i < k; ++i) P(i, i) = c.logu(1e-3, 10);
    if (c.coin()) for (int i = 0; i < 3; ++i) R(i, i) = c.logu(1e-3, 10);
    std::pair<vector3, matrix33> r;
    try { r = f.get_new_state(x, P, z, R); }
    catch (const std::exception&) { mon::observe("events.degenerate_refused"); return; } // saying no is allowed, a wrong answer is not
    check(r.first.allFinite() && ref::psd(r.second), "degenerate_update_finite", "rank %d", k);
    for (int i = 0; i < 3; ++i)
    {
        const double p = P(i, i) + (noQ ? 0 : 1e-9), s = p + R(i, i);
        if (s <= 0 || p / s < 1e-6) continue;
        const double e = x(i) + p / s * (z(i) - x(i));
        if (s > 1e-4) check(near(r.first(i), e, 1e-5, 1e-5), "degenerate_update_value", "axis %d got %.9g expected %.9g", i, r.first(i), e);
        else check(r.first(i) >= std::min(x(i), z(i)) - 1e-6 && r.first(i) <= std::max(x(i), z(i)) + 1e-6, "degenerate_update_between", "axis %d", i);
    }
    mon::nontrivial("degenerate", mon::fmt("%d %d %d", k, noQ, R.trace() > 0));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, mon::load_config); }
