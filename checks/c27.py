"""C27: the settings a caller gives (or leaves out) govern exactly the part of the model they name"""
from settingslib import *


def main():
    ck = Check("C27")
    rng = random.Random(SEED)
    N = 8 if THOROUGH else 1
    acts = ["Calibrate", "HandOver"]
    models(ck, [("Settings: %s, up to %d settings given or left out" % (k, few), "SettingsMC", cfg("SettingsMC", Kind='"%s"' % k, Few=few), acts) for k, few in (("bart", 3 if THOROUGH else 2), ("bcf", 2 if THOROUGH else 1))])
    for fault in ("othertrees", "dropsq", "crossed", "overrides"):
        try:
            model_check("SettingsMC", cfg("SettingsMC", Fault='"%s"' % fault), workers="1")
        except CheckError as e:
            if "Invariant InvMeaning is violated" not in str(e):
                raise
        else:
            raise CheckError("the model does not notice %s" % fault)
    # which settings are given, from the specification
    for kind in ("bart", "bcf"):
        b, _ = behaviours("SettingsMC", cfg("SettingsMC", Kind='"%s"' % kind, Few=2 if kind == "bart" or THOROUGH else 1, Emit="TRUE"))
        sets = sorted({tuple(sorted(x["given"])) for x in b})
        for lang in ("py", "r"):
            rng.shuffle(sets)
            pick = (sets * (1 + 64 * N // len(sets)))[:64 * N] if not THOROUGH else sets * 2
            # and many at a time
            slots = sorted({x for g in sets for x in g})
            sc = [settings_session(rng, lang, kind, g if i % 2 else rng.sample(slots, rng.randint(0, len(slots)))) for i, g in enumerate(pick)]
            res = run_driver(lang + "w", "settings.py" if lang == "py" else "settings.R", sc, lambda s: {"error": "crash"})
            v = Validation("SettingsTrace").run([("%s-%s%d" % (lang, kind, i), settings_events(s, r)) for i, (s, r) in enumerate(zip(sc, res))])
            ck.add_validation("settings of %s (%s)" % (kind, lang), v)
            ck.cov["sets of given settings replayed (%s, %s)" % (kind, lang)] = len({tuple(sorted(s["val"])) for s in sc})
            ck.sample({"session": sc[-1]})
    ck.assumptions += ["what a part is handed is seen at the boundary between the language glue and the core library", "nu and q take values of a table of gamma quantiles, which the specification checks",
                       "a calibrated variance may divide by n or by the residual degrees of freedom and may or may not count the propensities among the covariates"]
    return ck.finish()
