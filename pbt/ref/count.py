"""Reference model of a cycle-count and of its operations."""

from __future__ import annotations

import dataclasses
from typing import Optional

from pbt.ref import rainflow as ref


@dataclasses.dataclass
class Count:
    """``rows`` are (range, mean, count)."""

    rows: list
    res: Optional[list]
    minmax: list
    times: list
    unit: str = "MPa"
    name: Optional[str] = None
    small: float = 0
    solved: bool = False
    corrected: bool = False
    scf: float = 1.0
    rlb: float = 0.2
    rw: float = 0.05
    mlb: Optional[float] = None
    mw: float = 10

    def add(self, other: "Count") -> "Count":
        both = [r for r in (self.res, other.res) if r is not None]
        return Count(
            rows=self.rows + other.rows,
            res=sum(both, []),
            minmax=self.minmax + other.minmax,
            times=sorted(set(self.times + other.times)),
            unit=self.unit,
            name=self.name,
            small=self.small + other.small,
            scf=(self.scf + other.scf) / 2,
            rlb=min(self.rlb, other.rlb),
            rw=max(self.rw, other.rw),
            mlb=min(self.mlb, other.mlb),
            mw=max(self.mw, other.mw),
        )

    def mul(self, f: float) -> "Count":
        return dataclasses.replace(
            self,
            rows=[(r * f, m * f, n) for r, m, n in self.rows],
            res=None if self.res is None else [v * f for v in self.res],
            minmax=[v * f for v in self.minmax],
            rlb=self.rlb * f,
            rw=self.rw * f,
            mlb=self.mlb * f,
            mw=self.mw * f,
            scf=self.scf * f,
        )

    def can_solve(self, mode: str) -> bool:
        """Whether resolving changes anything."""
        if self.solved or self.res is None:
            return False
        seq = self.res if mode == "residuals" else self.minmax
        return len(seq) >= 3

    def solve(self, mode: str = "residuals") -> "Count":
        if not self.can_solve(mode):
            return self
        seq = self.res if mode == "residuals" else self.minmax
        new = ref.residual_sequence(seq)
        return dataclasses.replace(
            self,
            rows=[r for r in self.rows if r[2] > 0.5] + ref.cycles(seq),
            res=new,
            minmax=self.minmax
            if mode == "residuals"
            else [min(new), max(new)],
            solved=True,
        )


def from_signal(x, when, **kwargs) -> Count:
    res = ref.residual_sequence(x)
    return Count(
        rows=ref.cycles(x),
        res=res,
        minmax=[min(res), max(res)] if len(res) >= 2 else [],
        times=[when],
        **kwargs,
    )
