"""C10: copying an array is a value copy: no operation on one array changes another or borrowed data, and storage is owned exactly:
reference counts equal the number of users, nothing is freed while used, nothing is leaked or freed twice."""
from runner import Task
import arr
from c09 import mk, hint, ASSUMPTIONS

REPLAY = 'c09.cpp'


def tasks(tier):
    return mk(False, True)
