"""C14: isolation between StrVals that share a body, exact reference counts, every body and buffer freed exactly once."""
from runner import Task
import strops
from strops import ASSUMPTIONS, TRUSTED, hint

REPLAY = 'c12.cpp'
REPLAY_SRCS = ['src/char_encoding.cpp']


def tasks(tier):
    return strops.Ops('own', tier).tasks(Task, ('blocks', 'observe', 'construct', 'section', 'join', 'compare', 'find', 'own'))
