"""The containers under test: name -> (macros, static N or None, family)."""
SEQ = ["vector", "compact_vector", "small_vector", "static_vector", "segmented_vector", "devector", "segmented_devector"]
ASSOC = [p + u + "flat_" + k for p in ("small_", "static_") for u in ("", "unordered_") for k in ("set", "map", "multiset", "multimap")]
ALL = SEQ + ASSOC

def info(name):
    d = {"name": name, "seq": name in SEQ, "static": name.startswith("static_"), "small": name.startswith("small_")}
    d["ordered"] = (not d["seq"]) and "unordered" not in name
    d["map"] = name.endswith("map")
    d["multi"] = "multi" in name
    d["dev"] = name == "devector"
    d["segdev"] = name == "segmented_devector"
    d["segv"] = name == "segmented_vector"
    d["compact"] = name == "compact_vector"
    d["fixedn"] = d["static"] or d["small"] or d["segdev"] or d["segv"]
    return d

def default_n(name):
    i = info(name)
    if i["static"]: return 8
    if i["small"] and not i["seq"]: return 2
    if i["fixedn"]: return 3
    return 0

def macros(name, n=None):
    i = info(name)
    m = []
    if i["seq"]: m.append("SEQ")
    else: m += ["ASSOC"] + (["ORDERED"] if i["ordered"] else [])
    if i["static"]: m.append("STATICC")
    if i["fixedn"]: m.append("FIXEDN")
    if i["map"]: m.append("MAPLIKE")
    if i["multi"]: m.append("MULTI")
    if i["dev"]: m.append("DEV")
    if i["segdev"]: m.append("SEGDEV")
    if i["segv"]: m.append("SEGV")
    if i["compact"]: m.append("COMPACT")
    m.append("NN=%d" % (default_n(name) if n is None else n))
    m.append("CT=%s" % name)
    return m

def model_name(name):
    """containers of one kind share the transitions of the model"""
    i = info(name)
    if i["seq"]: return "devector" if i["dev"] or i["segdev"] else "small_vector"
    return name.replace("static_", "small_")
