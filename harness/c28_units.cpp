// C28: unit literals, constants and stellar scalings.
#include "spaceHub.hpp"
#include "vh.hpp"
using namespace hub;
using L = long double;
static const L PI_ = 3.141592653589793238462643383279502884L;

struct Unit {
    char const* name;
    double named;
    double (*lit_f)(long double);
    double (*lit_i)(unsigned long long);
    L def;      // definition in code units
    L si;       // physical value in SI over the SI value of the code unit; 0: none
    L si_tol;
};
static L rel(L a, L b) { return b == 0 ? fabsl(a) : fabsl(a / b - 1); }

void vh_main() {
    // reference: G = AU = Ms = 1, an Earth-like orbit takes one year = 2 pi
    const L year = 2 * PI_, day = year / 365.25636042L, hr = day / 24, min = hr / 60, sec = min / 60;
    const L km = 1 / 149597870.7L, m = km / 1000, cm = m / 100, kg = 1 / 1.98847e30L;
    // SI: length AU, mass from G M_sun, time from Kepler's third law (independent of the library's day)
    const L AUm = 149597870700.0L, GM = 1.32712440018e20L, Ts = sqrtl(AUm * AUm * AUm / GM), MsKg = 1.98847e30L;
#define U(N, DEF, SI, TOL) Unit{#N, unit::N, [](long double x) { return unit::operator""_##N(x); }, [](unsigned long long x) { return unit::operator""_##N(x); }, DEF, SI, TOL}
    std::vector<Unit> units{
        U(AU, 1, 1, 0), U(Ms, 1, 1, 0), U(year, year, 365.25636L * 86400 / Ts, 3e-6L), U(deg, PI_ / 180, PI_ / 180, 1e-15L),
        U(kyr, 1e3L * year, 365.25636e3L * 86400 / Ts, 3e-6L), U(Myr, 1e6L * year, 365.25636e6L * 86400 / Ts, 3e-6L), U(Gyr, 1e9L * year, 365.25636e9L * 86400 / Ts, 3e-6L),
        U(month, year / 12, 365.25636L / 12 * 86400 / Ts, 3e-6L), U(day, day, 86400 / Ts, 3e-6L), U(hr, hr, 3600 / Ts, 3e-6L), U(min, min, 60 / Ts, 3e-6L), U(sec, sec, 1 / Ts, 3e-6L),
        U(T_hubble, 13.7e9L * year, 13.8e9L * 365.25L * 86400 / Ts, 0.06L),
        U(kg, kg, 1 / MsKg, 1e-4L), U(mp, 1.67262192e-27L * kg, 1.67262192e-27L / MsKg, 1e-4L),
        U(km, km, 1000 / AUm, 1e-12L), U(m, m, 1 / AUm, 1e-12L), U(cm, cm, 0.01L / AUm, 1e-12L), U(PC, 648000 / PI_, 3.0856775814913673e16L / AUm, 1e-12L),
        U(Rs, 6.957e5L * km, 6.957e8L / AUm, 1e-3L), U(Re, 6378 * km, 6.3781e6L / AUm, 2e-3L), U(Rj, 69911 * km, 6.9911e7L / AUm, 2e-3L),
        U(kms, km / sec, 1000 / (AUm / Ts), 1e-5L), U(cms, cm / sec, 0.01L / (AUm / Ts), 1e-5L),
        U(Me, 3.003e-6L, 5.9722e24L / MsKg, 1e-3L), U(Mj, 317.8L * 3.003e-6L, 1.89813e27L / MsKg, 1e-3L), U(Mmoon, 0.0123L * 3.003e-6L, 7.342e22L / MsKg, 2e-3L)};

    vh::cases("units", vh::scale(27000, 500000), [&](vh::Rng& r, long i) {
        Unit const& u = units[i % units.size()];
        std::string k = std::string("unit ") + u.name;
        vh::close((L)u.named / u.def, 1.0L, 8e-16L, k + " named value");
        if (u.si > 0) vh::expect(rel(u.named, u.si) <= u.si_tol + 1e-15L, k + " physical value", "got ", u.named, " physical ", (double)u.si);
        double x = i < (long)units.size() ? 1.0 : r.chance(0.2) ? (double)r.i(1, 100) : r.sign() * r.logu(1e-30, 1e30);
        if (x < 0) x = -x;
        vh::close((L)u.lit_f(x) / (x * u.def), 1.0L, 1.2e-15L, k + " decimal literal");
        unsigned long long n = r.chance(0.5) ? (unsigned long long)r.i(1, 1000) : (unsigned long long)r.logu(1, 9e15);
        vh::close((L)u.lit_i(n) / (n * u.def), 1.0L, 1.2e-15L, k + " integer literal");
        vh::expect(u.lit_f(0.0L) == 0 && u.lit_i(0) == 0, k + " zero");
        vh::expect(u.lit_f((L)n) == u.lit_i(n), k + " integer and decimal literals differ", n);
        vh::expect(u.lit_f(1.0L) == u.named, k + " literal and named unit differ");
        vh::count("unit evaluations"); vh::eval(vh::hash_str(k + vh::num(x) + std::to_string(n)));
    });
    vh::cases("literals in source", 1, [&](vh::Rng&, long) {
        auto is = [&](double got, L want, char const* n) { vh::close((L)got / want, 1.0L, 2e-15L, std::string("literal ") + n); vh::count("source literals"); };
        using namespace hub::unit;
        is(1_AU, 1, "AU"); is(2.5_AU, 2.5L, "AU"); is(3_Ms, 3, "Ms"); is(1_year, 2 * PI_, "year"); is(180_deg, PI_, "deg"); is(90.0_deg, PI_ / 2, "deg"); is(1_kyr, 1000 * year, "kyr"); is(12_month, year, "month");
        is(365.25636042_day, year, "day"); is(24_hr, day, "hr"); is(60_min, hr, "min"); is(60_sec, min, "sec"); is(149597870.7_km, 1, "km"); is(1000_m, km, "m"); is(100_cm, m, "cm"); is(1_PC, 648000 / PI_, "PC");
        is(1000_m / 1_sec, km / sec, "m/s"); is(1_kms, km / sec, "kms"); is(100000_cms, km / sec, "cms"); is(1.98847e30_kg, 1, "kg"); is(1_Rs, 695700 * km, "Rs"); is(1_Mj, 317.8L * 3.003e-6L, "Mj"); is(1_Gyr, 1e9L * year, "Gyr"); is(13.7_Gyr, 13.7e9L * year, "Gyr"); is(T_hubble, 13.7e9L * year, "T_hubble");
        vh::eval(1);
    });
    vh::cases("composed quantities", vh::scale(2000, 20000), [&](vh::Rng& r, long) {
        auto is = [&](double got, L want, L tol, char const* n) { vh::close((L)got / want, 1.0L, tol, std::string("composed ") + n); vh::count("composed quantities"); };
        // Kepler's third law: P[yr]^2 M = a[AU]^3
        double a = r.logu(1e-3, 1e5), M = r.logu(1e-6, 1e8);
        double P = 2 * consts::pi * std::sqrt(std::pow(a * unit::AU, 3) / (consts::G * M * unit::Ms));
        is(P / unit::year, sqrtl((L)a * a * a / M), 1e-14L, "Kepler's third law");
        is(2 * consts::pi * std::sqrt(std::pow(unit::AU, 3) / (consts::G * unit::Ms)) / unit::day, 365.25636L, 1e-7L, "length of the sidereal year");
        is(29.7847 * unit::kms, 1, 1e-5L, "Earth's orbital speed");
        is(consts::C / unit::kms, 299792.458L, 1e-14L, "speed of light");
        is(unit::AU / consts::C / unit::sec, 499.004783836L, 1e-10L, "light time of one AU");
        is(unit::PC / unit::AU, 206264.806247L, 1e-11L, "parsec");
        is(unit::PC / (consts::C * unit::year), 3.26156378L, 5e-5L, "parsec in light years");
        is(unit::kms / (unit::PC / unit::Myr), 1.02271216L, 1e-4L, "km/s in parsec per Myr");
        is(consts::G * unit::Ms / (consts::C * consts::C) / unit::km, 1.476625L, 2e-5L, "half the Sun's gravitational radius");
        is(6.6743e-11 * std::pow(unit::m, 3) / (unit::kg * unit::sec * unit::sec) / consts::G, 1, 1e-3L, "gravitational constant");
        is(consts::kB / unit::mp / (unit::kms * unit::kms) * 1e6, 1.380649e-23L / 1.67262192e-27L, 1e-5L, "Boltzmann constant over proton mass");
        is(consts::kB_on_mp / (consts::kB / unit::mp), 1, 1e-14L, "Boltzmann constant over proton mass, named");
        is(consts::kB / (unit::kg * unit::m * unit::m / unit::sec / unit::sec), 1.380649e-23L, 1e-5L, "Boltzmann constant");
        is(unit::Me / unit::kg, 5.9722e24L, 1e-3L, "mass of the Earth"); is(unit::Mj / unit::kg, 1.89813e27L, 1e-3L, "mass of Jupiter");
        is(std::sqrt(2 * unit::Me / unit::Re) / unit::kms, 11.186L, 1e-3L, "escape speed of the Earth"); is(std::sqrt(2 * unit::Ms / unit::Rs) / unit::kms, 617.7L, 1e-3L, "escape speed of the Sun");
        is(std::pow(consts::a_jupiter, 1.5) * 2 * consts::pi / unit::year, 11.862L, 2e-3L, "Jupiter's year"); is(std::pow(consts::a_neptune, 1.5) * 2 * consts::pi / unit::year, 164.8L, 5e-3L, "Neptune's year"); is(std::pow(consts::a_mercury, 1.5) * 365.25636, 87.969L, 1e-4L, "Mercury's year");
        is(consts::e_jupiter, 0.0489L, 1e-14L, "e_jupiter"); is(consts::e_neptune, 0.009456L, 1e-14L, "e_neptune"); is(consts::e_mercury, 0.20563L, 1e-14L, "e_mercury");
        L d = PI_ / 180;
        is(consts::LoAN_jupiter, 100.464L * d, 1e-14L, "LoAN_jupiter"); is(consts::AoP_jupiter, 273.867L * d, 1e-14L, "AoP_jupiter"); is(consts::i_jupiter, 6.09L * d, 1e-14L, "i_jupiter");
        is(consts::LoAN_neptune, 131.784L * d, 1e-14L, "LoAN_neptune"); is(consts::AoP_neptune, 276.336L * d, 1e-14L, "AoP_neptune"); is(consts::i_neptune, 6.43L * d, 1e-14L, "i_neptune");
        is(consts::LoAN_mercury, 48.331L * d, 1e-14L, "LoAN_mercury"); is(consts::AoP_mercury, 29.124L * d, 1e-14L, "AoP_mercury"); is(consts::i_mercury, 3.38L * d, 1e-14L, "i_mercury");
        is(consts::pi, PI_, 2e-16L, "pi");
        vh::eval(vh::hash_str(vh::num(a) + vh::num(M)));
    });
    vh::cases("stellar radius", vh::scale(20000, 400000), [&](vh::Rng& r, long i) {
        using stellar::StarType; using stellar::stellar_radius;
        double M = i < 4 ? 1.0 : r.chance(0.3) ? r.u(0.01, 150) : r.logu(1e-6, 1e10), f = 1 + r.logu(1e-6, 10);
        L km_ = km;
        auto is = [&](double got, L want, L tol, char const* n) { vh::close((L)got / want, 1.0L, tol, std::string("stellar radius ") + n, vh::cat(" mass ", M)); };
        double bh = stellar_radius(StarType::BH, M), ns = stellar_radius(StarType::NS, M), ms = stellar_radius(StarType::STAR, M), wd = stellar_radius(StarType::WD, M);
        L C = 299792.458L * km / sec;
        is(bh, 2 * M / (C * C), 1e-14L, "black hole"); is(bh / unit::km, 2.95325L * M, 5e-5L, "black hole in km"); is(ns, 10 * km_, 1e-14L, "neutron star");
        is(ms, 695700 * km_ * powl(M, 0.75L), 1e-13L, "main sequence"); is(wd, 6957 * km_ * powl(M, -1.0L / 3), 1e-13L, "white dwarf");
        vh::expect(bh > 0 && ns > 0 && ms > 0 && wd > 0, "stellar radius not positive", M);
        double M2 = M * f;
        vh::expect(stellar_radius(StarType::BH, M2) > bh && stellar_radius(StarType::STAR, M2) > ms && stellar_radius(StarType::WD, M2) < wd && stellar_radius(StarType::NS, M2) == ns, "stellar radius not monotonic", M, " ", M2);
        is(stellar_radius(StarType::STAR, 1.0 * unit::Ms), (L)unit::Rs, 1e-15L, "Sun"); 
        float Mf = (float)M; is(stellar_radius(StarType::STAR, Mf), 695700 * km_ * powl((L)Mf, 0.75L), 1e-6L, "main sequence, float"); is(stellar_radius(StarType::BH, Mf), 2 * (L)Mf / (C * C), 1e-6L, "black hole, float");
        int Mi = (int)r.i(1, 100); is(stellar_radius(StarType::WD, Mi), 6957 * km_ * powl(Mi, -1.0L / 3), 1e-13L, "white dwarf, integer mass"); is(stellar_radius(StarType::STAR, Mi), 695700 * km_ * powl(Mi, 0.75L), 1e-13L, "main sequence, integer mass"); is(stellar_radius(StarType::BH, Mi), 2 * (L)Mi / (C * C), 1e-13L, "black hole, integer mass");
        vh::count("stellar radii"); vh::eval(vh::hash_str(vh::num(M)));
    });
}
