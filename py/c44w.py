"""C44, second part: the programs that read all of a large file."""
import c44
from c44 import PROGRAMS, RULE, prepare, check
CASES = {"quick": 16, "thorough": 240}

def strategy(tier):
    return c44.strategy(tier, False)
