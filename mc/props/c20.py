# -*- coding: utf-8 -*-
"""C20: numbers with SI units are written and read with their value."""
from decimal import Decimal as Dec

import numpy as np

from mc.engine import Space, Prune, Named
from hftools.constants import (SIFormat, unit_to_multiplier,
                               string_number_with_unit_to_value,
                               convert_with_unit)
from hftools.constants.si_units import format_number

ASSUMPTIONS = [
    "numbers are finite, infinite or nan real numbers",
    "outside 1e-24 ... 1e27 the nearest prefix is used",
    "written numbers can be read back for the prefixes a ... E with the "
    "units Hz s S Ohm m V A F W"]

# the SI prefixes (BIPM)
PREFIX = {"": 0, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18, "Z": 21,
          "Y": 24, "m": -3, "u": -6, "n": -9, "p": -12, "f": -15, "a": -18,
          "z": -21, "y": -24}
GREEK = dict(PREFIX)
del GREEK["u"]
GREEK[u"\u03bc"] = -6
READ = dict((k, v) for k, v in PREFIX.items() if -18 <= v <= 18)
READ.update(d=-1, c=-2)
UNITS = ["Hz", "s", "S", "Ohm", "m", "V", "A", "F", "W"]

MANT = ["1", "1.5", "2.25", "9.99", "9.9994", "9.9996", "9.999999999", "5",
        "1.0000001", "3.14159265358979", "12.5", "99.95", "123.456",
        "999.4", "999.9999"]
TYPES = [Named("float", float), Named("numpy float64", np.float64)]


def split(text, unit):
    """number and prefix of written text"""
    num, _, rest = text.partition(" ")
    if unit:
        assert rest.endswith(unit), text
        rest = rest[:len(rest) - len(unit)]
    return num, rest


def write(ctx):
    """value of the text is the number, rounded to the digits"""
    exp = ctx.choose("exponent", range(-27, 30))
    mant = ctx.choose("mantissa", MANT)
    sign = ctx.choose("sign", ["", "-"])
    digs = ctx.choose("digs", [0, 1, 3, 6, None])
    greek = ctx.flag("greek")
    how = ctx.choose("call", ["SIFormat", "format_number"])
    unit = ctx.choose("unit", ["Hz", "", "m"])
    kind = ctx.choose("type", TYPES if unit == "Hz" else TYPES[:1])
    x = kind("%s%se%d" % (sign, mant, exp))
    v = Dec(repr(float(x)))
    if how == "SIFormat":
        text = SIFormat(unit=unit, digs=digs, greek=greek) % x
    else:
        text = format_number(x, unit=unit, digs=digs, greek=greek)
    ctx.step()
    num, prefix = split(text, unit)
    table = GREEK if greek else PREFIX
    ctx.check(prefix in table, lambda: "%r: unknown prefix %r"
              % (text, prefix))
    e = table[prefix]
    got = Dec(num) * Dec(10) ** e
    if digs is None:
        tol = abs(v) * Dec("1e-14")
    else:
        ctx.check(len(num.partition(".")[2]) == digs, lambda: "%r has not %d "
                  "digits" % (text, digs))
        tol = Dec(10) ** (e - digs) * Dec("0.5") + abs(v) * Dec("1e-14")
    ctx.check(abs(got - v) <= tol, lambda: "%r is %s, number is %s"
              % (text, got, v))
    # the prefix gives one to three digits before the point
    a = abs(v) / Dec(10) ** e
    slack = Dec("1e-14")
    if -24 < e < 24:
        ctx.check(1 - slack <= a < 1000 * (1 + slack), lambda: "%r for %s"
                  % (text, v))
    elif e == 24:
        ctx.check(a >= 1 - slack, lambda: "%r for %s" % (text, v))
    else:
        ctx.check(a < 1000 * (1 + slack), lambda: "%r for %s" % (text, v))
    ctx.state((exp, mant, sign, digs, greek))
    ctx.observe(text)


def special(ctx):
    x = ctx.choose("number", [0, 0., -0., float("inf"), -float("inf"),
                              float("nan"), 5e-324, 1.7e308, -1.7e308, 7,
                              -12, 1000, 999999, 10 ** 6])
    digs = ctx.choose("digs", [0, 2, 3, None])
    greek = ctx.flag("greek")
    unit = ctx.choose("unit", ["V", "", None])
    text = SIFormat(unit=unit, digs=digs, greek=greek) % x
    ctx.step()
    num, prefix = split(text, unit or "")
    y = float(num)
    if x != x:
        ctx.check(y != y, lambda: "nan gives %r" % text)
    elif x in (float("inf"), -float("inf")):
        ctx.check(y == x, lambda: "%r gives %r" % (x, text))
    elif x == 0:
        ctx.check(y == 0 and prefix == "", lambda: "0 gives %r" % text)
    else:
        e = PREFIX[prefix] if not greek else GREEK[prefix]
        tol = abs(Dec(x)) * Dec("1e-14")
        if digs is not None:
            tol += Dec(10) ** (e - digs) / 2
        ctx.check(abs(Dec(num) * Dec(10) ** e - Dec(x)) <= tol,
                  lambda: "%r gives %r" % (x, text))
    ctx.state((repr(x), digs, unit))
    ctx.observe(text)


def custom(ctx):
    """other layouts"""
    fmt, parts = ctx.choose("fmt", [
        ("%(num)s%(unit)s", "%s%s"), ("[%(unit)s] %(num)s", "[%2$s] %1$s"),
        ("%(num)s", "%s"), ("x=%(num)s %(unit)s;", "x=%s %s;")])
    exp = ctx.choose("exponent", range(-24, 27))
    unit = ctx.choose("unit", ["Hz", "Ohm"])
    x = float("2.5e%d" % exp)
    text = SIFormat(fmt=fmt, unit=unit, digs=2) % x
    ctx.step()
    base = 3 * (exp // 3)
    prefix = [k for k, v in PREFIX.items() if v == base][0]
    num = "%.2f" % (2.5 * 10 ** (exp - base))
    want = fmt % dict(num=num, unit=prefix + unit)
    ctx.check(text == want, lambda: "%r, expected %r" % (text, want))
    ctx.state((fmt, exp, unit))
    ctx.observe(text)


def write_read(ctx):
    """text written for a number is read back as the number"""
    exp = ctx.choose("exponent", range(-18, 20))
    mant = ctx.choose("mantissa", ["1", "1.25", "9.5", "3.875"])
    sign = ctx.choose("sign", ["", "-"])
    unit = ctx.choose("unit", UNITS)
    if exp > 20 - 1:
        raise Prune("prefix")
    x = float("%s%se%d" % (sign, mant, exp))
    text = SIFormat(unit=unit, digs=6) % x
    got = string_number_with_unit_to_value(text)
    ctx.step()
    ctx.check(got.unit == unit, lambda: "%r is read with unit %r"
              % (text, got.unit))
    ctx.check(abs(float(got) - x) <= 1e-14 * abs(x), lambda: "%r is read as "
              "%r, written for %r" % (text, float(got), x))
    ctx.state((exp, mant, sign, unit))
    ctx.observe(text)


NUMS = ["1", "0", "10", "007", "3.25", ".5", "5.", "0.001", "123456789",
        "1e3", "1E3", "2.5e-3", "2e+06", ".5e2", "5.e1"]
OTHER = ["dB", "dBm", "K", "deg", "T", "xyz", "min", "Np", "mXYZ", "Pa",
         "mdB", "kK", "hPa", "mHzz", "MVA"]


def read(ctx):
    """all spellings of numbers with unit"""
    sign = ctx.choose("sign", ["", "+", "-"])
    num = ctx.choose("number", NUMS)
    space = ctx.choose("space", ["", " ", "  ", "\t"])
    br = ctx.flag("brackets")
    kind = ctx.choose("unit", ["none", "prefixed", "other", "%"])
    value = Dec(sign + num)
    if kind == "none":
        if br:
            raise Prune("no unit")
        unit = ""
        want_unit = None
    elif kind == "%":
        unit = "%"
        value = value / 100
        want_unit = None
    elif kind == "other":
        unit = ctx.choose("which", OTHER)
        want_unit = unit
    else:
        prefix = ctx.choose("prefix", sorted(READ))
        base = ctx.choose("base", UNITS)
        unit = prefix + base
        value = value * Dec(10) ** READ[prefix]
        want_unit = base
    text = sign + num + space + ("[%s]" % unit if br else unit)
    got = string_number_with_unit_to_value(text)
    ctx.step()
    ctx.check(got.unit == want_unit, lambda: "%r has unit %r, expected %r"
              % (text, got.unit, want_unit))
    g = Dec(repr(float(got)))
    ctx.check(abs(g - value) <= abs(value) * Dec("1e-15"), lambda: "%r is "
              "read as %s, expected %s" % (text, g, value))
    ctx.state(text)
    ctx.observe((float(got), got.unit))


def convert(ctx):
    """convert_with_unit and unit_to_multiplier agree with the prefixes"""
    prefix = ctx.choose("prefix", sorted(READ))
    base = ctx.choose("base", UNITS)
    pad = ctx.choose("padding", ["%s", " %s", "%s ", "\t%s "])
    v = ctx.choose("value", [0.23, -4, "2.5", 0, 1e280])
    unit = prefix + base
    mul, u = unit_to_multiplier(pad % unit)
    ctx.step()
    want = Dec(10) ** READ[prefix]
    ctx.check(u == base and abs(Dec(repr(float(mul))) - want) <=
              want * Dec("1e-15"), lambda: "%r is %r %r" % (unit, mul, u))
    got = convert_with_unit(pad % unit, v)
    ctx.step()
    w = float(v) * float(mul)
    ctx.check(got.unit == base and abs(float(got) - w) <= 1e-15 * abs(w),
              lambda: "%r %r is %r %r" % (v, unit, float(got), got.unit))
    ctx.state((unit, pad, v))
    ctx.observe((float(got), got.unit))


def refused(ctx):
    """texts that do not start with a number are no numbers"""
    text = ctx.choose("text", [
        "aa", "", " ", "V", "-", "+", ".", "e5", "2010-10-19", "12:30",
        "1.2.3", "10:20:30", "1-2", "1+2", "--1", "a1", "%", "[V]", "x=3"])
    try:
        got = string_number_with_unit_to_value(text)
    except ValueError:
        pass
    else:
        ctx.fail("%r is read as %r" % (text, got))
    ctx.step()
    for unit in ["V", "GHz", "%", "xyz", ""]:
        try:
            got = convert_with_unit(unit, text)
        except ValueError:
            pass
        else:
            ctx.fail("%r with unit %r is read as %r" % (text, unit, got))
        ctx.step()
    ctx.state(text)
    ctx.observe(text)


def spaces(tier):
    return [
        Space("write", write, "57 exponents x 15 mantissas x signs x digits "
              "x prefixes x types"),
        Space("special", special, "zero, infinity, nan, extremes, integers"),
        Space("custom", custom, "layouts"),
        Space("write_read", write_read, "written numbers are read back"),
        Space("read", read, "all spellings of numbers with units"),
        Space("convert", convert, "all prefixes of all units"),
        Space("refused", refused, "what is no number")]
