"""Builds simcats objects from JSON cases (public constructors only)."""
import numpy as np

from simcats.ideal_csd import IdealCSDGeometric
from vlib.models import ChargeModel


def ideal(model):
    return IdealCSDGeometric(tct_params=[np.array(p) for p in model["tct"]], rotation=model["rotation"], lut_entries=model["lut"],
                             cdf_type=model["cdf"], cdf_gamma_factor=model["factor"])


def reference(model):
    return ChargeModel(model["tct"], model["rotation"], model["lut"], model["cdf"], model["factor"])
