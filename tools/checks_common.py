import itertools
CONST = "CONSTANT Threads = {1,2,3,4}\n"


def words(alphabet, n):
    return [list(w) for k in range(1, n + 1) for w in itertools.product(alphabet, repeat=k)]
