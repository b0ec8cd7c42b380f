"""C21: see pegx.py"""
import pegx
from pegx import ASSUMPTIONS, TRUSTED, hint

REPLAY = 'c20.cpp'
REPLAY_SRCS = ['src/char_encoding.cpp']


def tasks(tier):
    return pegx.tasks('C21', tier)
