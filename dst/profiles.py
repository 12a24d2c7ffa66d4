"""Fixed density and particles-per-cell profiles (numba specialises per function, so keep this set small)."""
from numba import njit

@njit
def flat2(x, y): return 1.0e25
@njit
def flat3(x, y, z): return 1.0e25
@njit
def slope2(x, y): return 1.0e25 if x > 1.1e-6 else 0.0
@njit
def slope3(x, y, z): return 1.0e25 if x > 0.7e-6 else 0.0
@njit
def ppc2(x, y): return 2.0
@njit
def ppc3(x, y, z): return 1.0
@njit
def empty2(x, y): return 0.0
@njit
def empty3(x, y, z): return 0.0
@njit
def bump2(x, y): return 1.0e25 * (1.0 + 1.0e6 * x) if x > 3.2e-7 else 2.0e24 + 1.0e30 * y
@njit
def bump3(x, y, z): return 1.0e25 * (1.0 + 1.0e6 * x) if x > 2.2e-7 else 2.0e24 + 1.0e30 * z
@njit
def vppc2(x, y): return 3.0 if y > 4.2e-7 else (1.0 if x > 2.2e-7 else 0.0)
@njit
def vppc3(x, y, z): return 2.0 if y > 3.2e-7 else (1.0 if x > 2.2e-7 else 0.0)
