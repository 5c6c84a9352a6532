"""All checks"""
from . import calls, chars, convert, errors, escapes, reader, sources, tokens, tree, xmls

CHECKS = {}
for m in (reader, calls, chars, convert, errors, escapes, sources, tokens, tree, xmls):
    CHECKS.update(m.CHECKS)
