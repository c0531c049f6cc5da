#cython: language_level=3
# Compiled against the treap interface of the code under test (treaps.pxd).
from libc.stdlib cimport malloc, free, srand
from switss.utils.treaps cimport TNode, in_treap, add_to_treap, free_treap, treap_from_arr, treap_to_arr

GUARD = -77777

cdef class Probe:
    cdef TNode* t

    def __cinit__(self):
        self.t = NULL

    def seed(self, int s):
        srand(s)

    def add(self, int k):
        self.t = add_to_treap(self.t, k)

    def build(self, list keys):
        cdef int* a = <int*> malloc((len(keys) + 1) * sizeof(int))
        cdef int i
        for i in range(len(keys)):
            a[i] = keys[i]
        self.t = treap_from_arr(a, len(keys))
        free(a)

    def size(self):
        return 0 if self.t == NULL else self.t.size

    def has(self, int k):
        return in_treap(self.t, k)

    def arr(self, int slack):
        # what treap_to_arr writes, given more room than the size says
        cdef int n = self.size()
        cdef int* a = <int*> malloc((n + slack + 1) * sizeof(int))
        cdef int i
        for i in range(n + slack):
            a[i] = GUARD
        treap_to_arr(self.t, a)
        out = []
        for i in range(n + slack):
            out.append(a[i])
        free(a)
        while out and out[-1] == GUARD:
            out.pop()
        return out

    def drop(self):
        free_treap(self.t)
        self.t = NULL
