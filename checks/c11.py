"""C11: URL mapping: rewrite, rewrite_raw, redirect, docroot, alias and the patterns they use."""
from checks.c07 import FlowBase

RULE = ('generated programs of rewrite / rewrite_raw / redirect / docroot / alias / map / env actions whose targets are patterns (captures of the rule, of the enclosing condition, '
        'ranges, reversed and open ranges, host labels, request variables with and without enc:), nested in conditions, with 4-8 requests each; reference interpreter as oracle; '
        'non-trivial: more than three actions were executed for a request')


class Map(FlowBase):
    NAME = 'map'
    N_QUICK = 400
    N_THOROUGH = 15000
    SECS_QUICK = 70
    KINDS = ('if', 'if', 'deep', 'deep', 'rewrite', 'rewrite', 'rewrite', 'rewrite_raw', 'rewrite_raw', 'redirect', 'redirect', 'docroot', 'docroot', 'alias', 'alias', 'env', 'map')


SUBS = [Map]
