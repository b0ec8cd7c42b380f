"""C13: substrings, concatenations, insertions and repetitions have exactly the text described by the operands' texts."""
from runner import Task
import strops
from strops import ASSUMPTIONS, TRUSTED, hint

REPLAY = 'c12.cpp'
REPLAY_SRCS = ['src/char_encoding.cpp']


def tasks(tier):
    return strops.Ops('value', tier).tasks(Task, ('section', 'join'))
