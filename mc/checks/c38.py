from checks import freqcd_common


def run(pid, tier, seed, t0, replay):
    return freqcd_common.run(pid, tier, seed, t0, replay, "model_checking",
                             "every answer of the environment (ready set, bytes per read, silence) enumerated up to the scenario's deviation bound; at every wait: what was read is written, what was reported ready was read, exactly the open streams are watched, and the wait is not empty; an outcome is a distinct output")
