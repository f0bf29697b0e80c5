"""Which behaviours decide which property.

PLAN[id] = dict(title-independent):
  fam   : families of scenarios run through the real code and validated against spec/Trace.tla,
          with the number of scenarios per build variant in the quick tier
  models: exhaustive TLC models of the specification (module, needs, workers)
  replay: behaviours of those models replayed into the real code (py/behaviours.py), and how many in the quick tier
  level : verification level named in the manifest
Build variants are (dimension, spline degree, mode)."""
V = [(2, 3), (3, 2), (2, 2), (3, 3)]

def fam(name, n, variants=V, mode="plain"): return (name, n, variants, mode)

LAW0 = ["law_VM", "law_DP", "law_DPSoft", "law_MCC"]
LAWV = ["law_VMVisc", "law_DPVisc", "law_MCCVisc"]
LAWI = ["law_DPMui", "law_MCCMui"]

ALLTOGETHER = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C25"]
LONG  = ["C01", "C02", "C04", "C10", "C25"]
CROWD = ["C03", "C05", "C06", "C07", "C19", "C25"]

PLAN = {
 "C01": dict(fam=[fam("clock", 40), fam("plain", 20)], models=["MC_Schedule"]),
 "C02": dict(fam=[fam("clock", 60)], models=["MC_Schedule"]),
 "C03": dict(fam=[fam("plain", 60), fam("wander", 10)], models=["MC_Transfer"]),
 "C04": dict(fam=[fam("rigid", 30), fam("wander", 30), fam("plain", 20)], models=["MC_Mesh"]),
 "C05": dict(fam=[fam("plain", 60), fam("wander", 10), fam("clock", 10)], models=["MC_Transfer"]),
 "C06": dict(fam=[fam("plain", 70), fam("wander", 10), fam("resting", 12)], models=["MC_Transfer"]),
 "C07": dict(fam=[fam("plain_musl", 60), fam("resting", 16)], models=["MC_Transfer"]),
 "C08": dict(fam=[fam("plates", 70), fam("platemotion", 15)], models=["MC_Boundary"]),
 "C09": dict(fam=[fam("terrains", 90)], models=["MC_Boundary"]),
 "C10": dict(fam=[fam("platemotion", 60)], models=["MC_Boundary"]),
 "C11": dict(fam=[fam("periodic", 40), fam("periodic_mibf", 15)], models=["MC_Periodic"]),
 "C12": dict(fam=[fam("periodic", 45), fam("periodic_mibf", 15)], models=["MC_Periodic"]),
 "C13": dict(fam=[fam("elastic", 60), fam("within", 15), fam("resting", 30)], models=["MC_Constitutive"]),
 "C14": dict(fam=[fam(l, 50) for l in LAW0] + [fam("tip_dp", 10), fam("aim_0", 40)], models=["MC_Constitutive"]),
 "C15": dict(fam=[fam(l, 50) for l in LAWV] + [fam("tip_visc", 10), fam("aim_visc", 40)], models=["MC_Constitutive"]),
 "C16": dict(fam=[fam(l, 60) for l in LAWI] + [fam("tip_mui", 10), fam("aim_mui", 40)], models=["MC_Constitutive"]),
 "C17": dict(fam=[fam(l, 16) for l in LAW0 + LAWV + LAWI] + [fam("aim_any", 30)], models=["MC_Constitutive"]),
 "C18": dict(fam=[fam("mibf", 70), fam("periodic_mibf", 10), fam("aim_any", 25)], models=["MC_Boundary"]),
 "C19": dict(fam=[fam("race_any", 40, [(2, 3), (3, 2)], "tsan"), fam("many", 15)] + [fam(m, 6) for m in ["mt_plain", "mt_plates", "mt_periodic", "mt_mibf"]], models=["MC_Parallel"], extra="agree"),
 "C20": dict(fam=[fam("output", 60)], models=["MC_Output"]),
 "C21": dict(fam=[fam("output", 60)], models=["MC_Output"]),
 "C22": dict(fam=[fam("refusal", 90), fam("combo", 20), fam("aim_any", 15)], models=["MC_Schedule"]),
 "C23": dict(fam=[fam("sampling", 80)], models=["MC_Sampling"]),
 "C24": dict(fam=[fam("geometry", 50)], models=["MC_Boundary"]),
 "C25": dict(fam=[fam("plain", 60), fam("wander", 10)], models=["MC_Transfer"]),
 "C26": dict(fam=[fam("levelset", 30, [(2, 2), (3, 2)], "vdb")], models=["MC_LevelSet"]),
}
for _p in ALLTOGETHER: PLAN[_p]["fam"].append(fam("combo", 40))
for _p in LONG: PLAN[_p]["fam"].append(fam("long", 2))
for _p in ["C01", "C02", "C10"]: PLAN[_p]["fam"].append(fam("marathon", 1, [(2, 3), (3, 2)]))
for _p in CROWD: PLAN[_p]["fam"].append(fam("crowd", 2))
for _p in ["C03", "C05", "C06", "C07", "C25"]: PLAN[_p]["fam"].append(fam("hat", 12, [(2, 1)]))
for _p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C18", "C22", "C25"]: PLAN[_p]["fam"].append(fam("again", 8))
for _p in ["C03", "C04", "C05", "C06", "C07", "C25"]: PLAN[_p]["fam"].append(fam("sparse", 8))
for _p in ["C20", "C21"]: PLAN[_p]["fam"].append(fam("archive", 2))
for _p in ["C03", "C05", "C06", "C07", "C25"]: PLAN[_p]["replay"] = [("transfer", 40)]
for _p in ["C11", "C12"]: PLAN[_p]["replay"] = [("periodic", 40)]
PLAN["C08"]["replay"] = [("plates", 80)]; PLAN["C10"]["replay"] = [("plates", 40)]; PLAN["C09"]["replay"] = [("terrains", 80)]
for _p, _k in [("C14", "0"), ("C15", "v"), ("C16", "i")]: PLAN[_p]["replay"] = [("laws" + _k, 40), ("mcc" + _k, 40)]
PLAN["C17"]["replay"] = [("laws", 40)]
PLAN["C04"]["replay"] = [("mesh", 80)]
PLAN["C26"]["replay"] = [("levelset", 24)]
PLAN["C23"]["replay"] = [("sampling", 200)]
for _p in ["C14", "C15", "C16"]: PLAN[_p]["models"].append("MC_CamClay")
THOROUGH = 12      # scenarios of the thorough tier per scenario of the quick tier
