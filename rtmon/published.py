"""What the makers publish: dispersion of the glasses, prescriptions of lenses and objectives"""
import json
import os

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")
with open(os.path.join(DATA, "materials.json")) as f:
    GLASSES = json.load(f)
with open(os.path.join(DATA, "catalogue.json")) as f:
    _c = json.load(f)
LENSES, OBJECTIVES = _c["lenses"], _c["objectives"]
_code = {k: compile(v["n"], k, "eval") for k, v in GLASSES.items()}

# index at 0.5876 µm and Abbe number (Schott, Ohara, Hoya, CDGM catalogues)
ND = {"N_BK7": (1.5168, 64.17), "N_SF2": (1.64769, 33.82), "N_SF8": (1.68894, 31.31), "SF2": (1.64769, 33.85), "SF5": (1.67270, 32.21),
      "N_SF5": (1.67271, 32.25), "N_SF6": (1.80518, 25.36), "N_SF6HT": (1.80518, 25.36), "N_SF10": (1.72828, 28.53), "N_SF11": (1.78472, 25.68),
      "N_SF57": (1.84666, 23.78), "N_BAF10": (1.67003, 47.11), "E_BAF11": (1.66672, 48.3), "N_BAK1": (1.57250, 57.55),
      "N_BAK4": (1.56883, 55.98), "FK51A": (1.48656, 84.47), "LAFN7": (1.74950, 34.95), "N_LASF9": (1.85025, 32.17), "N_LAK22": (1.65113, 55.89),
      "N_SSK5": (1.65844, 50.88), "E_FD10": (1.72825, 28.32), "FusedSilica": (1.45846, 67.82), "N_SK16": (1.62041, 60.32),
      "N_LAK10": (1.72003, 50.62), "S_BAH11": (1.66672, 48.32), "S_TIH6": (1.80518, 25.42), "N_SK2": (1.60738, 56.65), "S_PHM52": (1.61800, 63.33),
      "S_NPH2": (1.92286, 18.90), "N_PK52A": (1.49700, 81.61), "H_LAF3B": (1.744, 44.90), "H_ZF52GT": (1.84666, 23.78), "H_ZF13": (1.78472, 25.72),
      "H_ZK50": (1.60738, 56.65), "H_F4": (1.62005, 36.35)}


def index(name, wavelength):
    return eval(_code[name], {"__builtins__": {}}, {"x": float(wavelength)})
