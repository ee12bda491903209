"""Facts the specification needs about a reader or tree run."""
def data_len(s):
    """length in bytes of a BYTES argument"""
    n = 0
    for part in s.split("+"):
        if part[:1] == "x": n += (len(part) - 1) // 2
        elif part[:1] == "r": n += int(part.split("*")[1])
    return n
def data_bytes(s):
    o = b""
    for part in s.split("+"):
        if part[:1] == "x": o += bytes.fromhex(part[1:])
        elif part[:1] == "r": o += bytes([int(part[1:3], 16)]) * int(part.split("*")[1])
    return o
def huge(data):
    """whether the data may claim lengths that cannot be represented in 32 bits"""
    return any(data[i] in (0xc6, 0xc9, 0xdb, 0xdd, 0xdf) and data[i + 1] >= 16 for i in range(min(len(data), 20000) - 1))
def header(case, env, c):
    g = lambda k, d: env.get(k, d)
    h = dict(trk=bool(c["trk"]), ext=bool(c["ext"]), eh=bool(int(g("eh", 1))), e0=g("e0", "ok"), dbl=bool(c["dbl"]))
    data = data_bytes(case.prog[0].split(" ")[1])
    h["data"] = "x" + data.hex()
    h["lim"] = min(len(data), int(g("failat", len(data))))
    s = g("src", "mem")
    if case.kind == "R":
        if s in ("mem", "memb"): h.update(src="mem", bufsz=0, se=["invalid"])
        elif s == "file": h.update(src="file", bufsz=c["bufsz"], se=["io", "eof"])
        else:
            eos = str(g("eos", "0"))
            h.update(src="stream", bufsz=int(g("buf", 64)), se=["io" if eos in ("0", "-1") else eos])
    if case.kind == "T":
        s = g("src", "data")
        sat = lambda v: min(int(v), 2147483647)
        lims = s == "stream" or "max" in env or "nodes" in env
        h.update(src=s, pool=int(g("pool", 1)) if s == "pool" else 2147483647, ie=[], bufsz=c["bufsz"] if s == "file" else 0, se=[],
                 maxs=sat(g("max", 2000000000)) if lims else 2147483647, maxn=sat(g("nodes", 2000000000)) if lims else 2147483647)
        if s == "file":
            fmax = int(g("fmax", 0)); ie = set()
            if fmax > (2**31 - 1 if c["m32"] else 2**63 - 1): ie = {"bug"}
            elif int(g("failopen", 0)) and g("close", "1") == "name": ie = {"io"}
            else:
                if not int(g("seek", 1)): ie = {"io"}
                elif not data: ie = {"invalid"}
                elif fmax and len(data) > fmax: ie.add("too_big")
                elif h["lim"] < len(data) or int(g("missing", 0)): ie.add("io")
            h["ie"] = sorted(ie)
        if not any(l.startswith("nf float") for l in case.prog): h["dbl"] = True
    if case.kind in "RT":
        # (recorded only where it matters, so that runs of all configurations can be folded)
        h["m32"] = bool(c["m32"]) and huge(data)
    if case.h.get("correct"): h["trk"] = True
    if case.kind == "R" and not any(l.startswith("f float") for l in case.prog): h["dbl"] = True
    return h
