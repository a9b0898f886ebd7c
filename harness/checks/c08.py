import numpy as np
from vlib import run_check, guarded
import models as M
import c07
import c10


def body(ck):
    c07.body(ck, derivs=True)
    c10.body(ck, structure=False)
    ck.rule = ("every atomic layout and every molecular basis up to the bound: each derivative column against the exact "
               "symbolic derivative of the specified value; distinct = (layout, features)")


if __name__ == "__main__":
    run_check("C08", "model_checking", body)
