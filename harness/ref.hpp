// Independent reference implementation ("oracle") of the integrals libgrpp evaluates.
// Everything is obtained by direct quadrature of pointwise-evaluated functions around the
// potential centre; no formula, recurrence or table of libgrpp is used.
#pragma once
#include <array>
#include <cmath>
#include <functional>
#include <string>
#include <vector>

namespace ref {

typedef std::array<double, 3> V3;

struct Mono { double c; int n[3]; };          // c * x^n0 y^n1 z^n2 (relative to the function's centre)
typedef std::vector<Mono> Poly;

// A set of functions f_i(r) = sum_k P_ki(r - center) exp(-alpha_k |r-center|^2)
struct Fn {
    V3 center;
    std::vector<double> alpha;
    int ncomp = 0;
    int deg = 0;                               // max polynomial degree
    std::vector<std::vector<Poly>> rows;       // [prim][comp]
};

struct ShellSpec {
    V3 origin{0, 0, 0};
    int L = 0;
    std::vector<double> coeffs, alpha;
};
struct PotSpec {
    int L = 0, J = 0;
    std::vector<int> powers;
    std::vector<double> coeffs, alpha;
};

std::vector<std::array<int, 3>> cart_list(int L);   // documented order: xx, xy, xz, yy, yz, zz
double norm_prim(int L, double alpha);               // documented: (2a/pi)^(3/4) (4a)^(L/2)
Fn make_fn(const ShellSpec &s);
Fn d_center(const Fn &f, int axis);                  // derivative with respect to the centre
Fn d_r(const Fn &f, int axis);                       // derivative with respect to the argument
Fn laplacian(const Fn &f);
Fn rot_about(const Fn &f, const V3 &C, int axis);    // ((r-C) x grad)_axis f

struct Mat {
    int na = 0, nb = 0;
    std::vector<double> v, s;                         // values, natural magnitude of every element
    std::vector<double> z;                            // magnitude before any angular cancellation (rounding noise scale)
    void init(int a, int b)
    {
        na = a;
        nb = b;
        v.assign((size_t)a * b, 0.0);
        s = z = v;
    }
    void add(const Mat &o, double f) {
        for (size_t i = 0; i < v.size(); i++) {
            v[i] += f * o.v[i];
            s[i] += std::fabs(f) * o.s[i];
            z[i] += std::fabs(f) * o.z[i];
        }
    }
};

void real_ylm(int l, const double *dir, double *out); // 2l+1 orthonormal real spherical harmonics

Mat type1(const Fn &A, const Fn &B, const V3 &C, const PotSpec &U);
Mat type2(const Fn &A, const Fn &B, const V3 &C, const PotSpec &U);  // sum_m <A|Y_lm> U <Y_lm|B>
// radial function given as callable, breakpoints = radii where it is not smooth / changes scale
Mat radial_local(const Fn &A, const Fn &B, const V3 &C, const std::function<double(double)> &U,
                 const std::vector<double> &breaks);
// what the library calls spin-orbit integrals: Im <A|U P_l l_eta|B> = -<A|P_l U ((r-C) x grad)_eta B>
Mat so(const Fn &A, const Fn &B, const V3 &C, const PotSpec &U, int axis);

struct OC { PotSpec U; ShellSpec shell; };
// non-local outercore term; out[0]=arep, out[1..3]=so_x,so_y,so_z
void outercore(const Fn &A, const Fn &B, const V3 &C, const std::vector<OC> &oc, Mat out[4]);

Mat overlap(const Fn &A, const Fn &B);

void gauss_legendre(int n, const double **x, const double **w);  // cached
}
