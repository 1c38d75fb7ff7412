"""reads what the programs write, without interpreting the scalars"""
import yaml


def load(path):
    """mapping in file order with string scalars, or None"""
    try:
        with open(path) as f:
            return yaml.load(f, Loader=yaml.BaseLoader)
    except (OSError, yaml.YAMLError):
        return None


def num(x):
    x = str(x).strip()
    return float({".inf": "inf", "-.inf": "-inf", ".nan": "nan"}.get(x, x))


def nums(l):
    return [num(x) for x in l] if isinstance(l, list) else []


DYN = ["mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"]
REG = ["mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"]


def inertial(path, keys):
    """names, values (links x 10) and friction lists of an inertial file; None when it does not have that form"""
    y = load(path)
    try:
        names, v, dl = [], [], []
        for k, l in y["dynamics"].items():
            names.append(k)
            v.append([num(l["inertial"][x]) for x in keys])
            dl.append(nums(l["friction"]["Dl"]) if "friction" in l else None)
        return names, v, dl
    except (KeyError, TypeError, AttributeError, ValueError):
        return None


def write_inertial(path, values, keys, dl=None):
    with open(path, "w") as f:
        f.write("dynamics:\n")
        for i, row in enumerate(values):
            f.write("  link%d:\n    inertial:\n" % (i + 1))
            for k, x in zip(keys, row):
                f.write("      %s: %r\n" % (k, float(x)))
            if dl is not None:
                f.write("    friction:\n      Dl: [%s]\n" % ", ".join(repr(float(x)) for x in dl[i]))
