"""property id -> how it is decided"""
import importlib

class Prop:
    def __init__(self, obs, native, level="proof", notes=""):
        self.obs = obs          # [(roots feature, module, function)]
        self.native = native    # [(harness area, quick args, thorough args)]
        self.level = level; self.notes = notes

PROPS = {
    "P01": Prop([("vm", "vm", "compile_obs")], [("vm", ["p01", "--iters", 3000], ["p01", "--iters", 200000])]),
    "P02": Prop([("vm", "vm", "sem_obs")], [("vm", ["p02", "--iters", 12000], ["p02", "--iters", 2000000])]),
    "P03": Prop([("vm", "vm", "trace_obs")], [("vm", ["p03", "--iters", 12000], ["p03", "--iters", 2000000])]),
    "P04": Prop([(None, "base", "proc_obs")], [("base", ["steps", "--iters", 30], ["steps", "--iters", 1200])]),
    "P05": Prop([(None, "base", "sound_obs")], [("base", ["forge", "--iters", 30], ["forge", "--iters", 1200])]),
    "P06": Prop([(None, "base", "bind_obs")], [("base", ["bind", "--iters", 30], ["bind", "--iters", 1200])]),
    "P07": Prop([(None, "base", "complete_obs")], [("base", ["honest", "--iters", 60], ["honest", "--iters", 4000])]),
    "P08": Prop([("field", "fields", "arith_obs")], [("field", ["--iters", 20000], ["--iters", 1500000])]),
    "P09": Prop([("field", "fields", "codec_obs")], [("field", ["--iters", 20000], ["--iters", 1500000])]),
    "P10": Prop([("tower", "tower", "tower_obs")], [("tower", ["tower", "--iters", 600], ["tower", "--iters", 40000])]),
    "P11": Prop([("tower", "pairing", "pairing_obs")], [("tower", ["pairing", "--iters", 60], ["pairing", "--iters", 8000])]),
    "P12": Prop([("curve", "curve", "curve_obs")], [("curve", ["law", "--iters", 400], ["law", "--iters", 30000])]),
    "P13": Prop([("curve", "codec", "codec_obs"), ("tower", "codec", "fq2_obs")], [("curve", ["codec", "--iters", 4000], ["codec", "--iters", 400000]), ("tower", ["codec", "--iters", 2000], ["codec", "--iters", 200000])]),
    "P14": Prop([("halo2", "poly", "arith_obs"), ("halo2", "poly", "msm_obs"), ("halo2", "poly", "domain_obs")], [("halo2", ["poly", "--iters", 600], ["poly", "--iters", 40000])]),
    "P15": Prop([("halo2", "poly", "assigned_obs")], [("halo2", ["assigned", "--iters", 60000], ["assigned", "--iters", 4000000])]),
    "P16": Prop([("plonk", "plonk", "verifier_obs")], [("plonk", ["sound", "--iters", 150], ["sound", "--iters", 6000])]),
    "P17": Prop([("kzg", "kzg", "kzg_obs")], [("plonk", ["kzg", "--iters", 250], ["kzg", "--iters", 20000]), ("plonk", ["bind", "--iters", 40], ["bind", "--iters", 1500])]),
    "P20": Prop([("prove", "prove", "obs")], [("plonk", ["honest", "--iters", 60], ["honest", "--iters", 4000])]),
    "P21": Prop([("ser", "ser", "obs")], [("plonk", ["keys", "--iters", 60], ["keys", "--iters", 3000])]),
    "P19": Prop([("pos", "pos", "obs")], [("pos", ["--iters", 60], ["--iters", 4000])]),
    "P18": Prop([("tr", "tr", "obs")], [("halo2", ["tr", "--iters", 800], ["tr", "--iters", 60000])]),
}
def load(mod, fn):
    return getattr(importlib.import_module("props." + mod), fn)
