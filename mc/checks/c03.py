from checks import freqcd_common


def run(pid, tier, seed, t0, replay):
    return freqcd_common.run(pid, tier, seed, t0, replay, "model_checking",
                             "all cuts of frequency texts and all interleavings with event reads up to the deviation bound, against an exact integral of the rate; outcomes are distinct outputs")
