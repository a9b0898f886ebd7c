"""Printed output of runs, parsed into lines."""
import contextlib
import io
import re
import numpy as np

FIVE = ["integration", "l1", "l infinity", "least squares", "kullback leibler"]


def captured(f, *a, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        res = f(*a, **kw)
    return res, buf.getvalue()


def name(text):
    t = re.sub(r"[^a-z0-9#]+", " ", text.lower()).strip()
    return t.replace("liebler", "leibler")


def number(text):
    try:
        return float(text)
    except ValueError:
        return None


def parse(text, method):
    """Lines: ("header", names), ("row", {name: number}), ("footer", ..) for the first closing line."""
    out, names = [], None
    for line in text.splitlines():
        if "Successful?" in line:
            out.append(("footer", None))
        elif method == "trust-constr":
            if line.strip().lower().startswith("integration"):
                out.append(("row", {name(k): v for k, v in re.findall(r"([A-Za-z][A-Za-z0-9 \-]*):\s*([^,\s]+)", line)}))
        elif line.strip().startswith("|"):
            cells = [c.strip() for c in line.strip().strip("|").split("|")]
            vals = [number(c) for c in cells]
            if all(v is None for v in vals):
                names = [name(c) for c in cells]
                out.append(("header", names))
            elif names is None or len(names) != len(cells):
                out.append(("row", {}))
            else:
                out.append(("row", dict(zip(names, cells))))
    return out


def closing(text, title):
    """What the closing lines say under a title, None if nothing."""
    i = text.rfind("Successful?")
    if i < 0:
        return None
    m = re.search(re.escape(title) + r":?\s*(\[[^\]]*\]|[^\n]*)", text[i:])
    return m.group(1).strip() if m else None


def shows(text, value, rel=0.):
    """A printed number stands for the value, to its printed digits."""
    shown, value = None if text is None else number(text), float(value)
    if shown is None or np.isnan(shown) != np.isnan(value):
        return False
    if np.isnan(value) or np.isinf(value) or np.isinf(shown):
        return bool(np.isnan(value) or shown == value)
    mantissa, _, power = text.lower().partition("e")
    digits = len(mantissa.partition(".")[2])
    return bool(abs(shown - value) <= .51 * 10. ** (int(power or 0) - digits) + (rel + 1e-12) * abs(value))


def shows_array(text, values):
    """A printed numpy array (eight digits after the point, trailing zeros left out) stands for the values."""
    values = np.asarray(values, float)
    words = (text or "").strip("[] \n").split()
    if len(words) != len(values) or any(number(w) is None for w in words):
        return False
    for w, v in zip(words, values):
        x, power = number(w), int(w.lower().partition("e")[2] or 0)
        if not (x == v or np.isnan(x) and np.isnan(v) or abs(x - v) <= .51e-8 * 10. ** power + 1e-12 * abs(v)):
            return False
    return True
