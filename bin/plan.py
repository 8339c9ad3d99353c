"""What each check runs: the design models, the trace specification and the harness driver.

models:  (module, cfg) per tier; a model with emit=True writes behaviours for the harness
trace:   trace specification that judges the harness log
family:  harness driver
every:   execute every n-th emitted behaviour (the offset depends on the seed)
random:  number of seeded random cases
"""

FAMILIES = {
    "book": dict(models=["MCBook"], trace="TraceBook", family="book"),
    "commute": dict(models=["MCCommute"], trace="TraceBook", family="book"),
    "laws": dict(models=["MCPositionLaws"], trace="TracePosition", family="position"),
    "wire": dict(models=["MCWire"], trace="TraceWire", family="wire"),
    "desk": dict(models=["MCDesk"], trace="TraceDesk", family="desk"),
    "snapshot": dict(models=["MCSnapshot"], trace="TraceBook", family="book"),
    "overlap": dict(models=["MCOverlap"], trace="TraceBook", family="overlap"),
    "position": dict(models=["MCPosition"], trace="TracePosition", family="position"),
    "ledger": dict(models=["MCLedger"], trace="TracePosition", family="ledger"),
    "trade": dict(models=["MCTrade"], trace="TracePosition", family="trade"),
    "request": dict(models=["MCOrderRequest"], trace="TraceOrder", family="request"),
    "status": dict(models=["MCOrderStatus"], trace="TraceOrder", family="status"),
    "store": dict(models=["MCStore"], trace="TraceStore", family="store"),
    "restore": dict(models=["MCRestore"], trace="TraceStore", family="restore"),
    "print": dict(models=["MCPrint"], trace="TraceStore", family="print"),
    "resample": dict(models=["MCResample"], trace="TraceResample", family="resample"),
    "file": dict(models=["MCCandleFile"], trace="TraceFile", family="file"),
    "average": dict(models=["MCAverages"], trace="TraceIndicators", family="average"),
    "rsi": dict(models=["MCRsi"], trace="TraceIndicators", family="rsi"),
    "ewv": dict(models=["MCVolatility"], trace="TraceIndicators", family="ewv"),
    "causal": dict(models=["MCAverages", "MCRsi"], trace="TraceIndicators", family="causal"),
    "args": dict(models=["MCPeriods"], trace="TraceIndicators", family="args"),
    "fractals": dict(models=["MCFractals", "MCFractalsLong"], trace="TraceFractals", family="fractals"),
    "strategy": dict(models=["MCStrategy"], trace="TraceStrategy", family="strategy"),
    "tick": dict(models=["MCCalendar"], trace="TraceCalendar", family="tick"),
    "date": dict(models=["MCCalendar"], trace="TraceCalendar", family="date"),
    "zone": dict(models=["MCZones"], trace="TraceZones", family="zone"),
    "symmetry": dict(models=["MCSymmetry"], trace="TraceSymmetry", family="symmetry"),
    "means": dict(models=["MCMeans"], trace="TraceMeans", family="means"),
    "cut": dict(models=["MCCut"], trace="TraceFile", family="cut"),
    "share": dict(models=["MCSharing"], trace="TraceSharing", family="share"),
    "render": dict(models=["MCRender"], trace="TraceRender", family="render"),
    "catalog": dict(models=["MCCatalog"], trace="TraceCatalog", family="catalog"),
}

# property: (family, {tier: (every, random)})
CHECKS = {
    "C01": ("book", {"quick": (1, 400), "thorough": (2, 6000)}),
    "C02": ("book", {"quick": (1, 400), "thorough": (2, 6000)}),
    "C03": ("book", {"quick": (1, 400), "thorough": (2, 6000)}),
    "C04": ("book", {"quick": (1, 400), "thorough": (2, 6000)}),
    "C05": ("snapshot", {"quick": (1, 3000), "thorough": (3, 40000)}),
    "C06": ("book", {"quick": (3, 150), "thorough": (9, 3000)}),
    "C07": ("overlap", {"quick": (1, 20000), "thorough": (2, 200000)}),
    "C08": ("position", {"quick": (5, 5000), "thorough": (6, 60000)}),
    "C09": ("position", {"quick": (5, 5000), "thorough": (6, 60000)}),
    "C10": ("ledger", {"quick": (12, 3000), "thorough": (50, 20000)}),
    "C11": ("position", {"quick": (25, 1500), "thorough": (40, 15000)}),
    "C12": ("trade", {"quick": (1, 20000), "thorough": (1, 300000)}),
    "C13": ("request", {"quick": (1, 8000), "thorough": (1, 100000)}),
    "C14": ("status", {"quick": (1, 3000), "thorough": (1, 50000)}),
    "C15": ("store", {"quick": (1, 2000), "thorough": (1, 30000)}),
    "C16": ("restore", {"quick": (1, 5000), "thorough": (3, 60000)}),
    "C17": ("resample", {"quick": (1, 2500), "thorough": (2, 30000)}),
    "C18": ("resample", {"quick": (1, 4000), "thorough": (2, 40000)}),
    "C19": ("resample", {"quick": (1, 1500), "thorough": (2, 20000)}),
    "C20": ("resample", {"quick": (2, 4000), "thorough": (3, 50000)}),
    "C21": ("file", {"quick": (2, 1200), "thorough": (1, 12000)}),
    "C22": ("file", {"quick": (2, 1200), "thorough": (1, 12000)}),
    "C23": ("average", {"quick": (1, 6000), "thorough": (4, 60000)}),
    "C24": ("average", {"quick": (1, 6000), "thorough": (4, 60000)}),
    "C25": ("average", {"quick": (1, 6000), "thorough": (4, 60000)}),
    "C26": ("rsi", {"quick": (1, 5000), "thorough": (4, 40000)}),
    "C27": ("ewv", {"quick": (3, 4000), "thorough": (3, 40000)}),
    "C28": ("fractals", {"quick": (3, 3000), "thorough": (6, 40000)}),
    "C29": ("fractals", {"quick": (2, 4000), "thorough": (6, 40000)}),
    "C30": ("causal", {"quick": (4, 5000), "thorough": (6, 60000)}),
    "C31": ("args", {"quick": (1, 6000), "thorough": (1, 60000)}),
    "C32": ("strategy", {"quick": (1, 3000), "thorough": (12, 40000)}),
    "C33": ("strategy", {"quick": (2, 3000), "thorough": (12, 40000)}),
    "C34": ("tick", {"quick": (1, 10000), "thorough": (1, 200000)}),
    "C35": ("catalog", {"quick": (1, 6000), "thorough": (1, 60000)}),
    "C36": ("catalog", {"quick": (1, 4000), "thorough": (1, 60000)}),
    "C37": ("date", {"quick": (1, 20000), "thorough": (1, 400000)}),
    "C38": ("print", {"quick": (1, 2500), "thorough": (1, 30000)}),
    "C39": ("render", {"quick": (1, 0), "thorough": (1, 0)}),
    "C40": ("book", {"quick": (4, 250), "thorough": (8, 4000)}),
    "C41": ("position", {"quick": (25, 1500), "thorough": (40, 20000)}),
    "C42": ("share", {"quick": (4, 3000), "thorough": (16, 20000)}),
    "C43": ("zone", {"quick": (1, 4000), "thorough": (1, 60000)}),
    "C44": ("book", {"quick": (2, 250), "thorough": (4, 4000)}),
    "C45": ("position", {"quick": (5, 5000), "thorough": (6, 60000)}),
    "C46": ("book", {"quick": (3, 200), "thorough": (4, 3000)}),
    "C47": ("symmetry", {"quick": (3, 6000), "thorough": (4, 80000)}),
    "C48": ("commute", {"quick": (2, 300), "thorough": (4, 4000)}),
    "C49": ("laws", {"quick": (8, 4000), "thorough": (8, 50000)}),
    "C50": ("laws", {"quick": (8, 4000), "thorough": (8, 50000)}),
    "C51": ("resample", {"quick": (1, 3000), "thorough": (2, 30000)}),
    "C52": ("wire", {"quick": (1, 2000), "thorough": (1, 30000)}),
    "C53": ("desk", {"quick": (8, 3000), "thorough": (8, 40000)}),
    "C57": ("request", {"quick": (1, 8000), "thorough": (1, 100000)}),
    "C60": ("cut", {"quick": (2, 400), "thorough": (40, 5000)}),
    "C58": ("means", {"quick": (4, 6000), "thorough": (60, 60000)}),
    "C59": ("means", {"quick": (4, 6000), "thorough": (60, 60000)}),
    "C56": ("book", {"quick": (3, 200), "thorough": (4, 3000)}),
    "C55": ("laws", {"quick": (4, 4000), "thorough": (8, 60000)}),
    "C54": ("book", {"quick": (5, 300), "thorough": (8, 3000)}),
}
