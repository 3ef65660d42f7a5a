"""tables as sessions describe them"""
import numpy as np
import pandas as pd


def column(c):
    k = c["kind"]
    if k in ("ord", "cat"):
        if c.get("plain"):
            return pd.Series(c["vals"], dtype=c["plain"])
        return pd.Series(pd.Categorical(c["vals"], categories=c["cats"], ordered=k == "ord"))
    if k == "str":
        return pd.Series(pd.array(c["vals"], dtype="string"))
    if c["dt"] == "object":
        return pd.Series([str(v) for v in c["vals"]], dtype=object)
    if c["dt"] == "datetime":
        return pd.Series(pd.to_datetime(["2020-01-%02d" % (1 + i % 28) for i in range(len(c["vals"]))]))
    return pd.Series(pd.array(c["vals"], dtype=c["dt"]) if c["dt"][0].isupper() or c["dt"] == "boolean" else np.array(c["vals"], dtype=c["dt"]))


def table(d):
    if d["form"] == "np":
        a = np.array(d["rows"], dtype=d["dt"])
        if d["order"] == "F":
            a = np.asfortranarray(a)
        elif d["order"] == "slice":
            b = np.zeros((2 * a.shape[0], 2 * a.shape[1]), dtype=d["dt"]) + 77
            b[::2, ::2] = a
            a = b[::2, ::2]
        elif d["order"] == "flat":
            a = a[:, 0]
        return a
    df = pd.concat([column(c) for c in d["cols"]], axis=1)
    df.columns = d.get("names") or ["c%d" % i for i in range(len(d["cols"]))]
    if d.get("index"):
        df.index = range(5, 5 + len(df))
    return df
