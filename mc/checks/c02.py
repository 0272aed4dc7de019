from checks import freqcd_common


def run(pid, tier, seed, t0, replay):
    return freqcd_common.run(pid, tier, seed, t0, replay, "model_checking",
                             "all gap sequences over a magnitude alphabet for each rate and start, each with enumerated read cuts, against exact integer arithmetic; outcomes are distinct outputs")
