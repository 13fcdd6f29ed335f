"""Polynomial step-size models of the line search (C14) and their use."""
from spec import *
import loops as L

NLS = "ConstrainedNonlinearLeastSquares"


@task("QuadraticApproxMinimum", "C14 C22", units=("nonlinear",))
def quadratic(V):
    ex = V.ex
    p0, d, a0, pa = (var(n) for n in ("phi0", "dphi0", "alpha0", "phi_alpha0"))
    ex.assume(lt(0, a0))
    V.assumptions.append("QuadraticApproxMinimum: the trial step is positive (proved at its call)")
    outs = V.run("QuadraticApproxMinimum", NLS, None, [p0, d, a0, pa])
    V.nothrow(outs)
    A = pa - p0 - d * a0          # a0^2 times the quadratic coefficient
    t = var("t")
    q = lambda x: (p0 + d * x) * a0 * a0 + A * x * x      # the parabola, times a0^2 > 0
    for o in V.rets(outs):
        r = o.val
        V.post(o, iff(r.has, conj(le(d, 0), lt(0, A))), "a value exactly when the slope is not positive and the parabola has a minimum")
        if r.has is FALSE:
            continue
        v = r.val
        V.post(o, implies(r.has, eq(2 * A * v + d * a0 * a0, 0)), "the derivative of the parabola vanishes at the value")
        V.post(o, implies(r.has, le(0, v)), "the value is not negative")
    # the parabola with this value and slope at zero and this value at alpha0; its stationary point is the minimizer
    V.post(V.pre, eq(q(a0), pa * a0 * a0), "the parabola interpolates the trial value")
    v = var("v")
    c = V.pre.copy()
    c.assume(conj(lt(0, A), eq(2 * A * v + d * a0 * a0, 0)))
    c.assume(le(0, A * (t - v) * (t - v)))       # A > 0 and a square
    V.post(c, eq(q(t) - q(v) - A * (t - v) * (t - v), 0), "completing the square at the stationary point")
    c.assume(eq(q(t) - q(v) - A * (t - v) * (t - v), 0))
    V.post(c, le(q(v), q(t)), "no other step has a smaller model value")


@task("CubicApproxCoeffs", "C14 C22", units=("nonlinear",))
def cubic_coeffs(V):
    ex = V.ex
    p0, d, a0, pa, a1, pb = (var(n) for n in ("phi0", "dphi0", "alpha0", "phi_alpha0", "alpha1", "phi_alpha1"))
    outs = V.run("CubicApproxCoeffs", NLS, None, [p0, d, a0, pa, a1, pb])
    V.throws_iff(outs, disj(le(a1, 0), le(a0, a1)), "not alpha0 > alpha1 > 0", "C14")
    for o in V.rets(outs):
        m = o.val
        V.post(o, conj(eq(m.rows, 2), eq(m.cols, 1)), "two coefficients", "C14")
        a, b = m.at(0), m.at(1)
        f = lambda x: a * x * x * x + b * x * x + d * x + p0
        V.post(o, eq(f(a0), pa), "interpolates the first trial value", "C14")
        V.post(o, eq(f(a1), pb), "interpolates the second trial value", "C14")


@task("CubicApproxMinimum", "C14 C22", units=("nonlinear",))
def cubic_min(V):
    ex = V.ex
    d, a, b = var("dphi0"), var("a"), var("b")
    ab = ex.new(Mat(2, 1, lambda i, j: ite(eq(i, 0), a, b)), "ab")
    outs = V.run("CubicApproxMinimum", NLS, None, [d, ab])
    V.nothrow(outs, props="C14")
    disc = b * b - 3 * a * d
    for o in V.rets(outs):
        r = o.val
        V.post(o, iff(r.has, conj(ne(a, 0), le(Fraction("-1e-12"), disc))), "a value exactly when the cubic term is not zero and there is a real stationary point (to rounding)", "C14")
        if r.has is FALSE:
            continue
        v = r.val
        V.post(o, implies(conj(r.has, le(0, disc)), eq(3 * a * v * v + 2 * b * v + d, 0)), "the value is a stationary point of the cubic", "C14")
        V.post(o, implies(r.has, le(0, 6 * a * v + 2 * b)), "with non-negative curvature", "C14")
