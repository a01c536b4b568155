"""Mathematical functions of the specification library."""
from .values import *
from . import groups


def install(it, ns):
    groups.install(it, ns)
