"""C15: comparison is the byte order of the texts; searches return the first or last matching index in range."""
from runner import Task
import strops
from strops import ASSUMPTIONS, TRUSTED, hint

REPLAY = 'c12.cpp'
REPLAY_SRCS = ['src/char_encoding.cpp']


def tasks(tier):
    return [t for t in strops.lemma_tasks(Task) if 'same bytes' in t.name] + strops.Ops('value', tier).tasks(Task, ('compare', 'find'))
