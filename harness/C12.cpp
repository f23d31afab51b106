/*FS {
 "tus": ["interpolation.c", "vertical_coordinate_transformations.c"],
 "quick_s": 60, "thorough_s": 600,
 "weights": {"velocity": 4},
 "bounds": ["1..3 levels; level parameters, surface values and vertical velocities arbitrary dyadic numbers of 6..12 bits", "arguments of exp/log and divisors (temperatures, pressures, depths) from tables", "relative humidity, specific humidity, dew point: symbolic humidity, temperatures and pressures from tables", "grid distances: grids of 1..4 x 1..4 points from a table of regular, rotated and polar grids", "vertical velocity: 3..4 x 3..4 points, 1..3 levels, one wind component or orography value enumerated from 5 values, the other fields fixed different values"],
 "outside": ["temperatures at the poles of the humidity formulas (35.86 K, 30.11 K)", "vertical velocity on grids of less than 3 points in one direction", "relative deviations below 1e-5"]
} */
#include "fs.h"
#include "fimex/interpolation.h"
#include "fimex/vertical_coordinate_transformations.h"
#include <cmath>
#include <vector>
namespace {
const double G = 9.80665, M = 0.0289644, R = 8.31432, RD = R / M;
constexpr float GUARD = -7777;
std::string nm(const char* a, int i) { return a + std::to_string(i); }
struct Lev
{
    int n;
    double a[3], b[3], o[4];
    explicit Lev(bool bNeeded = true)
    {
        n = fs_pick("n", 0, 3);
        for (int i = 0; i < 3; i++) {
            a[i] = fs_real(nm("a", i), -64, 64, 4);
            b[i] = bNeeded ? fs_real(nm("b", i), -2, 2, 6) : 0;
            o[i] = GUARD;
        }
        o[3] = GUARD;
    }
    template <class F>
    void check(int rc, F f, double tol = 1e-6)
    {
        FS_ASSERT(rc == MIFI_OK, "return code");
        for (int i = 0; i < 4; i++) {
            if (i < n)
                FS_ASSERT(fs_near(o[i], f(i), tol), "level value");
            else
                FS_ASSERT(o[i] == GUARD, "nothing written behind the last level");
        }
    }
};
const double TT[] = {288.15, 250, 300.5, 273.16}, PP[] = {1013.25, 100000, 512, 64.5};
}
FS_HARNESS(sigma)
{
    Lev l(false);
    double ptop = fs_real("ptop", 0, 64, 2), ps = fs_real("ps", 500, 1100, 2);
    l.check(mifi_atmosphere_sigma_pressure(l.n, ptop, ps, l.a, l.o), [&](int i) { return ptop + l.a[i] * (ps - ptop); });
}
FS_HARNESS(pressure_sigma)
{
    Lev l(false);
    const double D[] = {1024, 512, 1000, -256, 0.5};
    double ptop = fs_real("ptop", 0, 64, 2), d = D[fs_pick("d", 0, 4)];
    l.check(mifi_atmosphere_pressure_sigma(l.n, ptop, ptop + d, l.a, l.o), [&](int i) { return (l.a[i] - ptop) / d; });
    // inverse
    double back[4] = {GUARD, GUARD, GUARD, GUARD};
    mifi_atmosphere_sigma_pressure(l.n, ptop, ptop + d, l.o, back);
    for (int i = 0; i < l.n; i++)
        FS_ASSERT(fs_near(back[i], l.a[i], 1e-6), "pressure to sigma and back");
}
FS_HARNESS(hybrid)
{
    Lev l;
    double p0 = fs_real("p0", 0, 1100, 2), ps = fs_real("ps", 500, 1100, 2);
    switch (fs_pick("which", 0, 2)) {
    case 0: l.check(mifi_atmosphere_hybrid_sigma_pressure(l.n, p0, ps, l.a, l.b, l.o), [&](int i) { return l.a[i] * p0 + l.b[i] * ps; }); break;
    case 1: l.check(mifi_atmosphere_hybrid_sigma_ap_pressure(l.n, ps, l.a, l.b, l.o), [&](int i) { return l.a[i] + l.b[i] * ps; }); break;
    case 2: l.check(mifi_atmosphere_hybrid_height(l.n, ps, l.a, l.b, l.o), [&](int i) { return l.a[i] + l.b[i] * ps; }); break;
    }
}
FS_HARNESS(ocean)
{
    Lev l;
    const double H[] = {1, 16, 100, 4000.5}, HC[] = {0, 3, 10};
    double h = H[fs_pick("h", 0, 3)], hc = HC[fs_pick("hc", 0, 2)], zeta = fs_real("zeta", -4, 4, 4);
    if (fs_pick("g2", 0, 1))
        l.check(mifi_ocean_s_g2_z(l.n, h, hc, zeta, l.a, l.b, l.o), [&](int i) { return zeta + (zeta + h) * (hc * l.a[i] + h * l.b[i]) / (h + hc); }, 1e-4);
    else
        l.check(mifi_ocean_s_g1_z(l.n, h, hc, zeta, l.a, l.b, l.o), [&](int i) { double S = hc * l.a[i] + (h - hc) * l.b[i]; return S + zeta * (1 + S / h); }, 1e-4);
}
FS_HARNESS(exponential)
{
    int n = fs_pick("n", 0, 2), which = fs_pick("which", 0, 5);
    const double LE[] = {0, 0.5, 3, -1}, HH[] = {0, 120.5, 9000, -300}, PL[] = {1013.25, 850, 10.5, 1100};
    double p0 = fs_real("p0", 1, 1100, 2), in[3], o[4] = {GUARD, GUARD, GUARD, GUARD};
    double tb = TT[which == 0 || which == 2 || which == 4 ? 0 : fs_pick("t", 0, 2)], pb = PP[which < 3 || which == 4 ? 0 : fs_pick("p", 0, 2)];
    for (int i = 0; i < n; i++) {
        int k = fs_pick(nm("k", i), 0, 3);
        in[i] = which == 0 ? LE[k] : which <= 2 ? HH[k] : PL[k];
    }
    if (which == 0)
        mifi_atmosphere_ln_pressure(n, p0, in, o);
    else if (which == 1)
        mifi_barometric_pressure(n, p0, in, tb, o);
    else if (which == 2)
        mifi_barometric_standard_pressure(n, in, o);
    else if (which == 3)
        mifi_barometric_height(n, pb, in, tb, o);
    else if (which == 4)
        mifi_barometric_standard_altitude(n, in, o);
    else {
        // height and pressure are inverse
        double h[3] = {0, 0, 0};
        mifi_barometric_height(n, pb, in, tb, h);
        mifi_barometric_pressure(n, pb, h, tb, o);
    }
    for (int i = 0; i < 4; i++) {
        if (i >= n) {
            FS_ASSERT(o[i] == GUARD, "nothing written behind the last level");
            continue;
        }
        double e = 0, tol = 1e-3;
        switch (which) {
        case 0: e = p0 * std::exp(-in[i]); break;
        case 1: e = p0 * std::exp(-G * M / R * in[i] / tb); break;
        case 2: e = 1013.25 * std::exp(-G * M / R * in[i] / 288.15); break;
        case 3: e = -R * tb / (G * M) * std::log(in[i] / pb); break;
        case 4: e = -R * 288.15 / (G * M) * std::log(in[i] / 1013.25); break;
        case 5: e = in[i]; break;
        }
        FS_ASSERT(fs_near(o[i], e, tol), "barometric value");
    }
}
FS_HARNESS(humidity)
{
    float t = (float)TT[fs_pick("t", 0, 3)], p = (float)PP[fs_pick("p", 0, 3)] * 100;
    double es = 610.78 * std::exp(17.269 * (t - 273.16) / (t - 35.86));
    if (fs_pick("inv", 0, 1)) {
        float sh = (float)(fs_pick("sh", -2, 20) * 0x1p-8);
        double e = 100. * sh * p / (es * 0.622);
        float r = mifi_specific_to_relative_humidity(sh, t, p);
        FS_ASSERT(r >= 0 && r <= 100, "relative humidity is within 0 to 100");
        FS_ASSERT((e < 99.99 && e > 0 ? fs_near(r, e, 1e-2) : true) & (e >= 100.01 ? r == 100 : true) & (e <= 0 ? r == 0 : true), "relative humidity from specific humidity");
    } else {
        float rh = (float)(fs_pick("rh", -2, 24) * 5);
        double e = rh * 0.01 * es * 0.622 / p;
        float s = mifi_relative_to_specific_humidity(rh, t, p);
        FS_ASSERT(s >= 0, "specific humidity is not negative");
        FS_ASSERT(rh > 0 ? fs_near(s, e, 1e-5) : s == 0, "specific humidity from relative humidity");
        float back = mifi_specific_to_relative_humidity(s, t, p);
        FS_ASSERT(fs_near(back, fs_sel(rh < 0, 0, fs_sel(rh > 100, 100, rh)), 1e-2), "relative to specific humidity and back");
    }
}
FS_HARNESS(dewpoint)
{
    float t = (float)(fs_pick("t", -4, 4) * 10 + 273.15), d = (float)(fs_pick("d", -9, 8) * 5.5 + 273.15);
    float rh = mifi_dewpoint_to_relative_humidity(d, t);
    double tc = t - 273.15, dc = d - 273.15;
    double e = 100 * std::exp(17.625 * dc / (243.04 + dc) - 17.625 * tc / (243.04 + tc));
    FS_ASSERT(fs_near(rh, e > 100 ? 100 : e, 1e-2), "relative humidity from dew point");
}
FS_HARNESS(thickness)
{
    float t = (float)fs_real("t", 200, 320, 2), q = (float)fs_real("q", 0, 1, 6);
    FS_ASSERT(fs_near(mifi_virtual_temperature(q, t), (1 + 0.6077170418 * q) * t, 1e-2), "virtual temperature");
    float p1 = (float)PP[fs_pick("p1", 0, 3)], p2 = (float)PP[fs_pick("p2", 0, 3)];
    FS_ASSERT(fs_near(mifi_barometric_layer_thickness(p1, p2, t), R / (G * M) * t * std::log(p1 / p2), 0.5), "thickness of a layer");
}
FS_HARNESS(omega)
{
    int n = fs_pick("n", 0, 3);
    double om[3], p[3], t[3], w[4] = {GUARD, GUARD, GUARD, GUARD}, back[4] = {GUARD, GUARD, GUARD, GUARD};
    float omf[3], pf[3], tf[3], wf[4] = {GUARD, GUARD, GUARD, GUARD};
    for (int i = 0; i < 3; i++) {
        om[i] = omf[i] = (float)fs_real(nm("om", i), -8, 8, 4);
        p[i] = pf[i] = (float)(PP[i ? i : fs_pick("p", 0, 3)] * 8);
        t[i] = tf[i] = (float)TT[i ? i : fs_pick("t", 0, 3)];
    }
    FS_ASSERT(mifi_omega_to_vertical_wind(n, om, p, t, w) == MIFI_OK && mifi_omega_to_vertical_wind_f(n, omf, pf, tf, wf) == MIFI_OK, "return code");
    FS_ASSERT(mifi_vertical_wind_to_omega(n, w, p, t, back) == MIFI_OK, "return code");
    for (int i = 0; i < 4; i++) {
        if (i >= n) {
            FS_ASSERT(w[i] == GUARD && wf[i] == GUARD && back[i] == GUARD, "nothing written behind the last value");
            continue;
        }
        double e = -om[i] * RD * t[i] / (G * p[i]);
        FS_ASSERT(fs_near(w[i], e, 1e-5), "vertical wind from omega");
        FS_ASSERT(fs_near(wf[i], e, 1e-3), "vertical wind from omega (float)");
        FS_ASSERT(fs_near(back[i], om[i], 1e-5), "omega to vertical wind and back");
    }
}
FS_HARNESS(distance)
{
    int nx = fs_pick("nx", 1, 4), ny = fs_pick("ny", 1, 4), kind = fs_pick("kind", 0, 2), n = nx * ny;
    std::vector<double> lon(n), lat(n);
    std::vector<float> dx(n + 1, GUARD), dy(n + 1, GUARD);
    for (int j = 0; j < ny; j++)
        for (int i = 0; i < nx; i++) {
            int p = j * nx + i;
            lon[p] = kind == 0 ? 10 + 2 * i : kind == 1 ? 170 + 5 * i + 3 * j : 100 * i;
            lat[p] = kind == 0 ? 50 + 1.5 * j : kind == 1 ? -20 + 7 * j - 2 * i : 89 - 3 * j;
        }
    int rc = mifi_griddistance(nx, ny, lon.data(), lat.data(), dx.data(), dy.data());
    FS_ASSERT(dx[n] == GUARD && dy[n] == GUARD, "nothing written behind the grid");
    if (n == 1) {
        FS_ASSERT(rc == MIFI_ERROR && dx[0] == 0 && dy[0] == 0, "a single point has no distances");
        return;
    }
    FS_ASSERT(rc == MIFI_OK, "return code");
    auto dist = [&](int p, int q) {
        const double D = 3.14159265358979323846 / 180;
        return 6371000. * std::acos(std::sin(lat[p] * D) * std::sin(lat[q] * D) + std::cos(lat[p] * D) * std::cos(lat[q] * D) * std::cos((lon[p] - lon[q]) * D));
    };
    for (int j = 0; j < ny; j++)
        for (int i = 0; i < nx; i++) {
            int p = j * nx + i;
            double ex, ey;
            if (nx == 1 || ny == 1) {
                int q = p == n - 1 ? p - 1 : p;
                ex = ey = dist(q, q + 1);
            } else {
                // the last column and row repeat the ones before
                int q = (j == ny - 1 ? j - 1 : j) * nx + (i == nx - 1 ? i - 1 : i);
                ex = dist(q, q + 1);
                ey = dist(q, q + nx);
            }
            FS_ASSERT(fs_near(dx[p], ex, 1e-3 * std::fabs(ex) + 1), "distance in x");
            FS_ASSERT(fs_near(dy[p], ey, 1e-3 * std::fabs(ey) + 1), "distance in y");
        }
}
FS_HARNESS(velocity)
{
    int nx = fs_pick("nx", 3, 4), ny = fs_pick("ny", 3, 4), nz = fs_pick("nz", 1, 3), n = nx * ny;
    std::vector<float> gx(n), gy(n), zs(n), ps(n), u(n * nz), v(n * nz), t(n * nz), w(n * nz + 1, GUARD);
    std::vector<double> ap(nz), b(nz);
    const double dx = 1000, dy = 500;
    for (int k = 0; k < nz; k++) {
        b[k] = (2. * k + 1) / (2 * nz);
        ap[k] = k == nz - 1 ? 0 : 1000 - 100 * k;
    }
    for (int i = 0; i < n; i++) {
        gx[i] = 1000 + 10 * (i % 3);
        gy[i] = 500 - 5 * (i % 4);
        zs[i] = (i * 37) % 50;
        ps[i] = 100000 - (i * 71) % 900;
    }
    for (int i = 0; i < n * nz; i++) {
        u[i] = (i * 13) % 17 - 8;
        v[i] = (i * 11) % 19 - 9;
        t[i] = 250 + (i * 29) % 40;
    }
    int c = fs_pick("cell", 0, fs_thorough() ? n - 1 : 2), kk = fs_pick("level", 0, nz - 1);
    c = fs_thorough() ? c : c == 0 ? 1 : c == 1 ? nx : nx + 2;
    switch (fs_pick("what", 0, 2)) {
    case 0: u[kk * n + c] = (float)fs_pick("u", -2, 2) * 7; break;
    case 1: v[kk * n + (c * 5 + 1) % n] = (float)fs_pick("v", -2, 2) * 7; break;
    case 2: zs[(c + nx) % n] = (float)fs_pick("zs", 0, 3) * 30; break;
    }
    FS_ASSERT(mifi_compute_vertical_velocity(nx, ny, nz, dx, dy, gx.data(), gy.data(), ap.data(), b.data(), zs.data(), ps.data(), u.data(), v.data(), t.data(), w.data()) == MIFI_OK, "return code");
    FS_ASSERT(w[n * nz] == GUARD, "nothing written behind the field");
    // reference
    std::vector<double> ah(nz + 1, 0), bh(nz + 1, 0);
    bh[nz] = 1;
    for (int k = nz - 1; k > 0; k--) {
        ah[k] = 2 * ap[k] - ah[k + 1];
        bh[k] = 2 * b[k] - bh[k + 1];
    }
    auto dp = [&](int p, int k) { return (ah[k + 1] - ah[k]) + (bh[k + 1] - bh[k]) * ps[p]; };
    auto pm = [&](int p, int k) { return ah[k] + bh[k] * ps[p]; };
    auto dlnp = [&](int p, int k) { return k == 0 ? 0. : std::log(pm(p, k + 1) / pm(p, k)); };
    auto alfa = [&](int p, int k) { return k == 0 ? std::log(2.) : 1 - pm(p, k) * dlnp(p, k) / dp(p, k); };
    auto phi = [&](int p, int k) { // geopotential at the full level
        double s = zs[p] * G;
        for (int l = nz - 1; l > k; l--)
            s += RD * t[l * n + p] * dlnp(p, l);
        return s + RD * t[k * n + p] * alfa(p, k);
    };
    auto div = [&](int p, int k) {
        double hx = gx[p] / dx, hy = gy[p] / dy;
        auto fu = [&](int q) { return gy[q] / dy * u[k * n + q] * dp(q, k); };
        auto fv = [&](int q) { return gx[q] / dx * v[k * n + q] * dp(q, k); };
        return ((fu(p + 1) - fu(p - 1)) / (2 * dx) + (fv(p + nx) - fv(p - nx)) / (2 * dy)) / (hx * hy);
    };
    for (int k = 0; k < nz; k++)
        for (int j = 0; j < ny; j++)
            for (int i = 0; i < nx; i++) {
                double e = 0;
                if (k > 0) {
                    int jj = j == 0 ? 1 : j == ny - 1 ? ny - 2 : j, ii = i == 0 ? 1 : i == nx - 1 ? nx - 2 : i, p = jj * nx + ii;
                    double s = 0;
                    for (int l = 1; l < k; l++)
                        s += div(p, l);
                    double w1 = RD * t[k * n + p] * (dlnp(p, k) * s + alfa(p, k) * div(p, k)) / dp(p, k);
                    double w2 = (phi(p + 1, k) - phi(p - 1, k)) / (2 * gx[p]) + (phi(p + nx, k) - phi(p - nx, k)) / (2 * gy[p]);
                    e = (w1 + w2) / G;
                }
                FS_ASSERT(fs_near(w[k * n + j * nx + i], e, 0x1p-7), "vertical velocity");
            }
}
