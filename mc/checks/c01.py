from checks import freqcd_common


def run(pid, tier, seed, t0, replay):
    return freqcd_common.run(pid, tier, seed, t0, replay, "model_checking",
                             "every answer of the environment (ready set, bytes per read, waits) enumerated up to the scenario's deviation bound, completely for streams of up to 12 (thorough 17) bytes; an outcome is a distinct output")
