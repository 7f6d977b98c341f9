"""Subclasses of the simulation classes which log every realization at its end, for the drivers."""
import numpy as np

from .sut import classes


def logged(cls, log):
    """log gets one dict per run_once()"""
    base = classes()[cls]

    class Logged(base):
        def __init__(self, **kw):
            super().__init__(**kw)
            self._since_reset = False

        def reset(self):
            super().reset()
            self._since_reset = True

        def run_once(self):
            start = self.occupation_prob()
            super().run_once()
            log.append(dict(start=start, fresh=self._since_reset, order=tuple(self.get_site_id_sequence()),
                            pc=self.get_pc(), sites=self.get_site_count_wrapping_cluster_pc(),
                            bonds=self.get_bond_count_wrapping_cluster_pc(),
                            p_star=self.get_shortest_path_p() if cls == 'SP' else None,
                            data=None if cls == 'SP' else np.array(self.get_data_array(), copy=True),
                            p=self.occupation_prob()))
            self._since_reset = False
    Logged.__name__ = base.__name__
    Logged.__qualname__ = base.__qualname__
    return Logged


def close(a, b, rel=3e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rel * np.maximum(1e-3, np.abs(b))))
