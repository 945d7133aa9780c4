"""Which generators and models decide which property."""
def G(num, thorough, prefix=None, module=None, **k):
    d = dict(num=num, thorough=dict(num=thorough), **k)
    if prefix: d["prefix"] = prefix
    if module: d["module"] = module
    return d
def X(prefix=None, module=None, **k):      # exhaustive enumeration by TLC
    d = dict(k)
    if prefix: d["prefix"] = prefix
    if module: d["module"] = module
    return d
SELF = dict(mc="FltSelfTest", spec="SSpec", invariants="FftOk DctOk DctNorm LagOk ToepOk MatOk SeqOk FilOk PreOk LpMin LpBack RastaLin ResOk DelOk ConvOk".split())
FRAMES = dict(mc="FramingMC", spec="FSpec", constants=dict(MaxN=14), thorough=dict(constants=dict(MaxN=30)),
              invariants="InSignal Starts CountOk TailOnly Extends Shifts".split(), properties=["Ends"])
PNCC = dict(mc="PnccMC", spec="PSpec", constants=dict(Frames0=3, Top=4), thorough=dict(constants=dict(Frames0=5, Top=3)),
            invariants="NonNeg Causal Ahead Floor1 RastaCausal RastaOffset".split())
def HIST(server, refutes=None):
    d = dict(mc="HistoryMC", spec="HSpec", constants=dict(MaxCalls=4, Server='"%s"' % server), invariants="Results Object Stable Private".split())
    return dict(d, refutes=refutes) if refutes else d
HISTORIES = [HIST("pure"), HIST("key", "Results"), HIST("identity", "Results"), HIST("alias", "Private"), HIST("buffer", "Private"), HIST("inplace", "Object")]
PROPS = {
 "C01": dict(gens=[X()]),
 "C02": dict(gens=[X(), G(750, 5000, "Fr", "C02"), X("Sk", "C02", optional=True), X("Bg", "C02"), FRAMES]),
 "C03": dict(gens=[G(1000, 6000), X("Wn", "C03"), G(20, 120, "Lg", "C03")]),
 "C04": dict(gens=[G(1000, 6000), G(500, 2000, "Pr", "C04"), G(12, 72, "Lg", "C04")]),
 "C05": dict(gens=[G(2000, 8000)]),
 "C06": dict(gens=[G(1200, 6000), X("Mir", "C06")]),
 "C07": dict(gens=[G(600, 4000), X("Fm", "C07", optional=True)]),
 "C08": dict(gens=[G(1500, 4000)]),
 "C09": dict(gens=[G(800, 3000), G(750, 4000, "Fw", "C09")]),
 "C10": dict(gens=[X(), X("Sw", "C10")]),
 "C11": dict(gens=[G(2000, 8000), G(16, 96, "Lg", "C11")]),
 "C12": dict(gens=[G(2500, 8000), G(20, 120, "Lg", "C12"), SELF]),
 "C13": dict(gens=[G(2500, 8000), G(16, 96, "Lg", "C13")]),
 "C14": dict(gens=[G(1500, 6000), G(12, 72, "Lg", "C14")]),
 "C15": dict(gens=[X(), G(880, 5000, "Lf", "C15"), G(12, 72, "Lg", "C15")]),
 "C16": dict(gens=[X(), G(880, 5000, "Nm", "C16"), G(12, 72, "Lg", "C16")]),
 "C17": dict(gens=[X()]),
 "C18": dict(gens=[G(880, 5000), G(250, 1500, "St", "C18", optional=True), G(10, 60, "Lg", "C18"), PNCC]),
 "C19": dict(gens=[G(1600, 6000), G(10, 60, "Lg", "C19"), SELF]),
 "C20": dict(gens=[G(1200, 5000), G(620, 4000, "Cv", "C20"), G(8, 48, "Lg", "C20")]),
 "C21": dict(gens=[G(1400, 6000), G(12, 72, "Lg", "C21")]),
 "C22": dict(gens=[G(2000, 4000)]),
 "C23": dict(gens=[G(500, 4000), G(10, 60, "Lg", "C23"), G(500, 2500, "Cq", "C23", optional=True), SELF]),
 "C24": dict(gens=[G(700, 4000), G(10, 60, "Lg", "C24")]),
 "C25": dict(gens=[G(1200, 3000), X("Gp", "C25", optional=True), dict(mc="YinMC", spec="MSpec", constants=dict(Len0=5, Levels=3), invariants=["Result", "InRange"], properties=["Terminates"])]),
 "C26": dict(gens=[G(3000, 6000)]),
 "C27": dict(gens=[G(4000, 10000), G(380, 2500, "Ex", "C27")]),
 "C28": dict(gens=[X(), X("Zr", "C28"), X("Pk", "C28"), G(180, 2500, "Rh", "C28"), G(120, 1500, "Th", "C28"), X("Ly", "C28"), X("Lc", "C28"), G(64, 700, "Lh", "C28")] + HISTORIES),
 "C29": dict(gens=[G(2000, 12000), G(380, 1500, "Tr", "C29"), G(16, 96, "Lg", "C29")]),
 "C30": dict(gens=[G(1250, 8000), G(380, 2000, "Cs", "C30"), G(20, 120, "Lg", "C30"), FRAMES, PNCC]),
 "C31": dict(gens=[G(1200, 5000)]),
 "C32": dict(gens=[G(2000, 10000), G(750, 4000, "Bk", "C32"), G(16, 96, "Lg", "C32")]),
 "C33": dict(gens=[G(2200, 8000), G(380, 2000, "Rt", "C33")]),
 "C34": dict(gens=[X(), X("Fe", "C34"), X("Bf", "C34"), X("Tk", "C34", optional=True)]),
 "C35": dict(gens=[G(2000, 8000), G(380, 2000, "Gt", "C35")]),
}
