import ctypes, os
_lib = ctypes.CDLL(os.environ["VF_PROXY"])
for f in ("vf_world_handle", "vf_split"): getattr(_lib, f).restype = ctypes.c_void_p
for f in ("vf_free", "vf_rank_in", "vf_size_in"): getattr(_lib, f).argtypes = [ctypes.c_void_p]
class Comm:
    def __init__(self, h, world=False): self.h = ctypes.c_void_p(h); self.world = world
    def Get_rank(self): return _lib.vf_rank() if self.world else _lib.vf_rank_in(self.h)
    def Get_size(self): return _lib.vf_nranks() if self.world else _lib.vf_size_in(self.h)
    rank = property(Get_rank); size = property(Get_size)
    def Split(self, color, key):
        h = _lib.vf_split(color, key)
        return Comm(h) if h else None
    def Free(self): _lib.vf_free(self.h); self.h = ctypes.c_void_p(0)
_lib.vf_load(os.environ["VF_REAL"].encode())
COMM_WORLD = Comm(_lib.vf_world_handle(), True)
def _sizeof(c): return ctypes.sizeof(ctypes.c_void_p)
def _addressof(c): return ctypes.addressof(c.h)
