"""Reference model of base QC: the documented verdict of every flag of one report (None = either, see DESIGN.md)."""
from c07 import bad_date, bad_pos, bad_time
from c08 import blacklisted, inside, west_east, MAT_AREAS, SHIP, HUM_OK
from ephem import is_day

EPS = 1e-9


def over(excess, *operands):
    """1 if an excess over a limit is positive, None within rounding of it (an exact tie counts if the operands are short binary fractions)."""
    if abs(excess) < EPS and (excess != 0 or not all((x * 1024).is_integer() for x in map(float, operands))):
        return None
    return int(excess > 0)


def hard(v, lim):
    return 1 if v is None else int(not lim[0] <= v <= lim[1])


def clim_max(v, c, lim):
    return 1 if v is None or c is None else over(abs(v - c) - lim, v, c, lim)


def clim_std(v, c, s, minmax, mult):
    if v is None or c is None or s is None:
        return 1
    return over(abs(v - c) - mult * min(max(s, minmax[0]), minmax[1]), v, c, mult, s, *minmax)


def clim_low(v, c, s, mult, low):
    if v is None or c is None or s is None:
        return 1
    a, b = over(abs(v - c) - mult * s, v, c, mult, s), over(abs(v - c) - low, v, c, low)
    if a == 0 or b == 0:
        return 0
    return None if a is None or b is None else 1


def wind(v, d, lim):
    if v is None:
        return None          # the documentation does not say
    return int((d == 361 and v != 0) or (d == 362 and v > lim))


def classes(d):
    pt = d.get("PT")
    return {"POSisbuoy": int(pt in (6, 7)), "POSisdrifter": int(pt == 7), "POSisship": int(pt in SHIP)}


def position(d, params, day=True):
    la, lo = d["LAT"], d["LON"]
    f = {"POSpos": bad_pos(la, lo), "POSdate": bad_date(d["YR"], d["MO"], d.get("DY")), "POStime": bad_time(d.get("HR")),
         "POSblklst": blacklisted(d.get("ID"), d.get("DCK"), d["YR"], d["MO"], la, west_east(lo), d.get("PT"))}
    if day:
        if f["POSpos"] or f["POSdate"] or f["POStime"]:
            f["POSday"] = 1
        else:
            f["POSday"] = is_day(d["YR"], d["MO"], d["DY"], d["HR"], la, lo, params["base"]["time_since_sun_above_horizon"])
    return f


def sst(d, cl, p):
    v, c = d.get("SST"), cl("SST")
    return {"SSTnoval": int(v is None), "SSTfreez": 0 if v is None else over(p["freezing_point"] - v), "SSTclim": clim_max(v, c, p["maximum_anomaly"]),
            "SSTnonorm": int(c is None), "SSThardlimit": hard(v, p["hard_limits"])}


def air(d, cl, p, name):
    v, c = d.get(name), cl(name)
    return {name + "noval": int(v is None), name + "clim": clim_max(v, c, p["maximum_anomaly"]), name + "nonorm": int(c is None),
            name + "hardlimit": hard(v, p["hard_limits"])}


def slp(d, cl, p):
    v, c = d.get("SLP"), cl("SLP")
    return {"SLPnoval": int(v is None), "SLPclim": clim_low(v, c, cl("SLP", 1), p["maximum_standardised_anomaly"], p["lowbar"]), "SLPnonorm": int(c is None)}


def dew(d, cl, p):
    v, c, at2 = d.get("DPT"), cl("DPT"), d.get("AT2")
    return {"DPTclim": clim_std(v, c, cl("DPT", 1), p["minmax_standard_deviation"], p["maximum_standardised_anomaly"]), "DPTnoval": int(v is None), "DPTnonorm": int(c is None),
            "DPTssat": (1 if v is None or at2 is None else int(v > at2)) if at2 == d.get("AT") else None}


def second_air(d, cl, p):
    v, c = d.get("AT2"), cl("AT2")
    return {"AT2clim": clim_std(v, c, cl("AT2", 1), p["minmax_standard_deviation"], p["maximum_standardised_anomaly"]), "AT2noval": int(v is None), "AT2nonorm": int(c is None),
            "AT2hardlimit": hard(v, p["hard_limits"]) if v == d.get("AT") else None}


def windy(d, p):
    v = d.get("W")
    return {"Wnoval": int(v is None), "Whardlimit": hard(v, p["hard_limits"]), "Wconsistency": wind(v, d.get("D"), p["variable_limit"])}


def mat_blacklist(d):
    return int((d.get("PT") == 5 and d.get("DCK") == 780) or (
        d.get("DCK") == 193 and 1880 <= d["YR"] <= 1892 and any(inside(b, d["LAT"], d["LON"]) for b in MAT_AREAS)))


def fixed(d):
    """documented correction of a missing hour"""
    d = dict(d)
    if d.get("DCK") == 701 and d["YR"] < 1860 and d.get("HR") is None:
        d["HR"] = 0.0
    return d


def base(d, cl, params):
    """All flags of perform_base_qc; d holds only present values, cl(name, stat) gives climatology or None."""
    d = fixed(d)
    f = classes(d)
    f.update(position(d, params))
    f["POSis780"] = int(d.get("DCK") == 780)
    f["DPThum_blacklist"] = int(d.get("PT") not in HUM_OK)
    f["ATmat_blacklist"] = mat_blacklist(d)
    f["Wwind_blacklist"] = int(d.get("DCK") in (708, 780))
    f.update(sst(d, cl, params["SST"]))
    f.update(air(d, cl, params["AT"], "AT"))
    f.update(slp(d, cl, params["SLP"]))
    f.update(windy(d, params["W"]))
    f.update(dew(d, cl, params["DPT"]))
    f["DPThardlimit"] = int(any(hard(d.get(k), params[q]["hard_limits"]) for k, q in (("AT", "AT"), ("DPT", "DPT"), ("SHU", "SHU"), ("CRH", "RH"))))
    f.update(second_air(d, cl, params["AT"]))
    return f


def old(d, cl):
    """flags of the stand-alone routine qc.base_qc_report, with its built-in limits"""
    f = position(d, dict(base=dict(time_since_sun_above_horizon=1.0)))
    del f["POStime"]
    f["POSisbuoy"], f["POSisship"], f["POSis780"] = int(d.get("PT") in (6, 7)), int(d.get("PT") in SHIP), int(d.get("DCK") == 780)
    f["POSmat_blacklist"] = int((d.get("PT") == 5 and d.get("DCK") == 780) or (
        d.get("DCK") == 193 and 1880 <= d["YR"] <= 1893 and any(inside(b, d["LAT"], d["LON"]) for b in MAT_AREAS)))
    v, c = d.get("SST"), cl("SST")
    f.update(SSTnoval=int(v is None), SSTfreez=0 if v is None else over(-1.8 - v), SSTclim=clim_max(v, c, 8.0), SSTnonorm=int(c is None))
    v, c = d.get("AT"), cl("AT")
    f.update(ATnoval=int(v is None), ATclim=clim_max(v, c, 10.0), ATnonorm=int(c is None))
    return f
