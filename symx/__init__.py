"""symx: symbolic execution of the real spreg Python source over exact reals, decided by z3."""
