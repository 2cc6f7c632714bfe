"""User-written materials (the documented extension point), with a seam at which
the simulator can fail or interrupt the evaluation."""
import numpy as np

from refellips.structureSE import ComponentSE, ScattererSE
from refnx.analysis import Parameters

_hook = None  # callable(material tag); per process


class _Base(ScattererSE):
    def __init__(self, n, k, disp, tag, wavelength, seam=None):
        super().__init__(name=f"user{tag}", wavelength=wavelength)
        self.n, self.k, self.disp, self.tag = n, k, disp, tag
        self._parameters = Parameters(name=self.name)
        self._parameters.extend([n, k, disp])

    @property
    def parameters(self):
        return self._parameters

    def touch(self):
        if _hook is not None:
            _hook(self.tag)


class UserIndex(_Base):
    def complex(self, wavelength):
        self.touch()
        wav = self.wavelength if wavelength is None else wavelength
        return self.n.value + self.disp.value * (wav / 1000 - 0.5) + 1j * self.k.value


class UserEps(_Base):
    def epsilon(self, energy):
        self.touch()
        return (self.n.value + self.disp.value * energy + 1j * self.k.value) ** 2


class UserProfile(ComponentSE):
    """A user-written component of several layers whose solvent content rises
    linearly, with a log-probability term of its own."""

    def __init__(self, thick, ri, rough, vfsolv, k, lp, name=""):
        super().__init__(name=name)
        self.thick, self.ri, self.rough, self.vfsolv, self.k, self.lp = thick, ri, rough, vfsolv, k, lp
        self._parameters = Parameters(name=name)
        self._parameters.extend([thick])
        self._parameters.extend(ri.parameters)
        self._parameters.extend([rough, vfsolv])

    @property
    def parameters(self):
        return self._parameters

    def slabs(self, structure=None):
        n = complex(self.ri.complex(structure.wavelength))
        out = np.zeros((self.k, 5))
        for j in range(self.k):
            out[j] = self.thick.value / self.k, n.real, n.imag, self.rough.value, self.vfsolv.value * (j + 1) / self.k
        return out

    def logp(self):
        return self.lp * self.thick.value / 100
