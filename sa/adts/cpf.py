"""complex functions: C02"""
from .cpx import functions as run
