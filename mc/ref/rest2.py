"""REST2 clear-sky direct beam (Gueymard 2003 appendix B, Gueymard 2008), tables of coefficients and small evaluators."""
import math

E0 = {1: 635.4, 2: 709.7}
ALBEDO = {1: 0.92, 2: 0.84}
# cos Z + a Z^b / (c - Z)^d
MASS = {"rayleigh": (0.48353, 0.095846, 96.741, 1.754), "ozone": (1.0651, 0.6379, 101.8, 2.2694), "water": (0.10648, 0.11423, 93.781, 1.9203), "aerosol": (0.16851, 0.18198, 95.318, 1.9542)}


def poly(cs, x):
    return sum(c * x ** i for i, c in enumerate(cs))


def ratio(num, den, x):
    return poly(num, x) / poly(den, x)


def mass(kind, alt):
    a, b, c, d = MASS[kind]
    z = 90.0 - alt
    return 1.0 / (math.sin(math.radians(alt)) + a * z ** b / (c - z) ** d)


def wavelength(band, ma, alpha, beta):
    u = math.log(1 + ma * beta)
    if band == 1:
        d = [0.57664 - 0.024743 * alpha, ratio([0.093942, -0.2269, 0.12848], [1, 0.6418], alpha), ratio([-0.093819, 0.36668, -0.12775], [1, -0.11651], alpha),
             alpha * ratio([0.15232, -0.087214, 0.012664], [1, -0.90454, 0.26167], alpha)]
    else:
        d = [ratio([1.183, -0.022989, 0.020829], [1, 0.11133], alpha), ratio([-0.50003, -0.18329, 0.23835], [1, 1.6756], alpha), ratio([-0.50001, 1.1414, 0.0083589], [1, 11.168], alpha),
             ratio([-0.70003, -0.73587, 0.51509], [1, 4.7665], alpha)]
    return poly(d[:3], u) / (1 + d[3] * (u * u if band == 1 else u))


def aerosol(band, ma, alpha, beta):
    return math.exp(-ma * beta * wavelength(band, ma, alpha, beta) ** -alpha)


def rayleigh(band, m):
    return ratio([1, 1.8169, 0.033454], [1, 2.063, 0.31978], m) if band == 1 else ratio([1, -0.010394], [1, 0, -0.00011042], m)


def gas(band, m):
    return ratio([1, 0.95885, 0.012871], [1, 0.96321, 0.015455], m) if band == 1 else ratio([1, 0.27284, -0.00063699], [1, 0.30306], m)


def ozone(band, m, u):
    if band == 2:
        return 1.0
    f1, f2, f3 = ratio([0, 10.979, -8.5421], [1, 2.0115, 40.189], u), ratio([0, -0.027589, -0.005138], [1, -2.4857, 13.942], u), ratio([0, 10.995, -5.5001], [1, 1.6784, 42.406], u)
    return ratio([1, f1, f2], [1, f3], m)


def nitrogen(band, m, u):
    if band == 2:
        return 1.0
    g1, g2, g3 = ratio([0.17499, 41.654, -2146.4], [1, 0, 22295.0], u), ratio([0, -1.2134, 59.324], [1, 0, 8847.8], u), ratio([0.17499, 61.658, 9196.4], [1, 0, 74109.0], u)
    return min(1, ratio([1, g1, g2], [1, g3], m))


def water(band, m, w):
    if band == 1:
        h1, h2 = ratio([0, 0.065445, 0.00029901], [1, 1.2728], w), ratio([0, 0.065687, 0.0013218], [1, 1.2008], w)
        return ratio([1, h1], [1, h2], m)
    c = [ratio([0, 19.566, -1.6506, 1.0672], [1, 5.4248, 1.6005], w), ratio([0, 0.50158, -0.14732, 0.047584], [1, 1.1811, 1.0699], w),
         ratio([0, 21.286, -0.39232, 1.2692], [1, 4.8318, 1.412], w), ratio([0, 0.70992, -0.23155, 0.096514], [1, 0.44907, 0.75425], w)]
    return ratio([1, c[0], c[1]], [1, c[2], c[3]], m)


def direct_normal(band, alt, mbar, uo, un, w, alpha, beta):
    m = mass("rayleigh", alt) * mbar / 1013.25
    mw, ma = mass("water", alt), mass("aerosol", alt)
    return E0[band] * rayleigh(band, m) * gas(band, m) * ozone(band, mass("ozone", alt), uo) * nitrogen(band, mw, un) * water(band, mw, w) * aerosol(band, ma, alpha, beta)


def forward_scatter(alt):
    return 1 - math.exp(-0.6931 - 1.8326 * math.sin(math.radians(alt)))


def correction(band, ma, tau):
    if band == 1:
        g = [ratio([3.715, 0.368, 0.036294], [1, 0, 0.0009391], ma), ratio([-0.164, -0.72567, 0.20701], [1, 0, 0.001901], ma), ratio([-0.052288, 0.31902, 0.17871], [1, 0, 0.0069592], ma)]
    else:
        g = [poly(n, ma) / (1 + k * ma ** 1.5) for n, k in (([3.4352, 0.65267, 0.00034328], 0.034388), ([1.231, -1.63853, 0.20667], 0.1451), ([0.8889, -0.55063, 0.50152], 0.14865))]
    return (g[0] + g[1] * tau) / (1 + g[2] * tau)


def rayleigh_forward(band, m):
    return 0.5 * poly([0.89013, -0.049558, 0.000045721], m) if band == 1 else 0.5


def sky_albedo(band, a, b):
    if band == 1:
        n, n1, d, d1, k = 0.13363 + 0.00077358 * a, (0.37567 + 0.22946 * a) / (1 - 0.10832 * a), 1, (0.84057 + 0.68683 * a) / (1 - 0.08158 * a), 0
    else:
        n, n1, d, d1, k = 0.010191 + 0.00085547 * a, (0.14618 + 0.062758 * a) / (1 - 0.19402 * a), 1, (0.58101 + 0.17426 * a) / (1 - 0.17586 * a), 0
    return (n + b * n1) / (d + b * d1)
