"""Which harness decides which property, and how many cases each tier runs."""
COMMON = ["val.cc", "refjson.cc", "refguess.cc", "texts.cc", "core.cc", "refpatch.cc", "refschema.cc"]


def chk(src, quick, thorough, **kw):
    d = dict(src=[src] + COMMON, quick=quick, thorough=thorough)
    d["src"] += kw.pop("model", [])
    d.update(kw)
    return d


CHECKS = {
    "C34": chk("c34.cc", 40000, 220000),
    "C35": chk("c35.cc", 400000, 3500000),
    "C36": chk("c36.cc", 50000, 500000),
    "C37": chk("c37.cc", 22000, 150000),
    "C33": chk("c33.cc", 100000, 1000000),
    "C32": chk("c32.cc", 200000, 1500000, model=["argmodel.cc"], link=["-Wl,--wrap=exit"]),
    "C31": chk("c31.cc", 600000, 5000000),
    "C30": chk("c30.cc", 10000, 60000, varsh=True),
    "C29": chk("c29.cc", 8000, 50000, flavour="tsan", chunk=4),
    "C28": chk("c28.cc", 150000, 1000000),
    "C27": chk("c27.cc", 40000, 220000, model=["argmodel.cc"], link=["-Wl,--wrap=exit"]),
    "C26": chk("c26.cc", 200000, 1000000, model=["argmodel.cc"], link=["-Wl,--wrap=exit"]),
    "C25": chk("c25.cc", 100000, 600000),
    "C24": chk("c24.cc", 100000, 1000000),
    "C23": chk("c23.cc", 100000, 1000000),
    "C22": chk("c22.cc", 300000, 2500000),
    "C21": chk("c21.cc", 200000, 2000000),
    "C20": chk("c20.cc", 200000, 2000000),
    "C19": chk("c19.cc", 200000, 2000000),
    "C18": chk("c18.cc", 300000, 2000000),
    "C17": chk("c17.cc", 50000, 250000),
    "C16": chk("c16.cc", 150000, 700000),
    "C15": chk("c15.cc", 150000, 1500000),
    "C14": chk("c14.cc", 150000, 1200000),
    "C05": chk("c05.cc", 400000, 4000000),
    "C06": chk("c06.cc", 400000, 4000000),
    "C03": chk("c03.cc", 60000, 600000),
    "C04": chk("c04.cc", 100000, 1000000),
    "C02": chk("c02.cc", 150000, 1500000),
    "C01": chk("c01.cc", 150000, 1500000),
    "C07": chk("c07.cc", 40000, 400000),
    "C08": chk("c08.cc", 30000, 300000),
    "C09": chk("c09.cc", 30000, 300000),
    "C10": chk("c10.cc", 30000, 300000),
    "C11": chk("c11.cc", 80000, 600000),
    "C12": chk("c12.cc", 60000, 600000),
    "C13": chk("c13.cc", 120000, 1200000),
}
