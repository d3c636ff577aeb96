"""Contracts on the functions of /repo/src/Argos.

Every module here registers contracts (by qualified name and parameter types) and
lemmas; `Contracts` is what the engine sees."""
from .core import *
from . import core
from . import strings, iterators, counter, parserdata, impl, values, facade, text, results, parse, help, copies, ids, init, machine, wrappers, finish
from .core import shapes, str_less, REG, LEMMAS
