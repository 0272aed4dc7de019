from checks import freqcd_common


def run(pid, tier, seed, t0, replay):
    return freqcd_common.run(pid, tier, seed, t0, replay, "fault_enumeration",
                             "each environment call of each explored schedule fails once in every modelled way; outcomes are distinct outputs")
