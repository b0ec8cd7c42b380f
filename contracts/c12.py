"""C12: length, byte count, characters by index and bytes of a StrVal are those of its text, whatever was indexed before; construction keeps the text."""
from runner import Task
import strops
from strops import ASSUMPTIONS, TRUSTED, hint

REPLAY = 'c12.cpp'
REPLAY_SRCS = ['src/char_encoding.cpp']


def tasks(tier):
    return strops.lemma_tasks(Task) + strops.contract_tasks(Task) + strops.Ops('value', tier).tasks(Task, ('blocks', 'observe', 'construct'))
