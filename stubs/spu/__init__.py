"""Plaintext stand-in for the `spu` package (not installable offline).

It lets every mplang module import and run.  Nothing is secret-shared: a "share"
carries the whole plaintext plus (index, count, content id), and every consumer
verifies those tags, so that a share that is lost, duplicated, reordered, given to
the wrong party or mixed with another value's shares is an error instead of a
silently right answer.  It is NOT part of the code under test.
"""
from . import libspu, api  # noqa: F401
