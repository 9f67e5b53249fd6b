"""Numerals in texts: a character of the table below stands for one or more symbolic decimal digits.

The stand-in characters are Unicode decimal digits, so string methods and regular expressions treat them as digits;
int() of a text that contains them gives the symbolic value.
"""
import re as re_shim  # noqa: F401
from . import num as N

BASE = 0x1D7CE
COUNT = 50


class Table:
    values = {}


def reset():
    Table.values = {}


def new_char(value):
    i = len(Table.values)
    if i >= COUNT:
        raise N.Unsupported("too many symbolic digits in a text")
    ch = chr(BASE + i)
    Table.values[ch] = value
    return ch


def has(s):
    return isinstance(s, str) and any(BASE <= ord(ch) < BASE + COUNT for ch in s)


def to_int(s):
    t = s.strip()
    sign = 1
    if t[:1] in "+-" and t:
        sign = -1 if t[0] == "-" else 1
        t = t[1:]
    t = t.replace("_", "")
    if not t or not all(ch.isdecimal() for ch in t):
        raise ValueError(f"invalid literal for int() with base 10: {s!r}")
    v = N.lift(0)
    for ch in t:
        v = v * 10 + (Table.values[ch] if ch in Table.values else int(ch))
    return v * sign
