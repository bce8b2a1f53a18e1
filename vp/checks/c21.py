"""C21: tracking reports what happened."""
from vp import common, track, trackrun


def check(rep, tier, seed):
    q = tier == "quick"
    futs = common.start_models(rep, [("TrackMC", "TrackMC" if q else "TrackMCDeep", ["Once", "NothingInvented", "NoLossAtStop", "FinalState", "Delivered", "NeverBack"], 2)])
    jobs = [(track.execute, [track.scenario(seed, i) for i in range(300 if q else 6000)], track.to_traces, 30),
            (track.execute_exit, [track.exit_scenario(seed, i) for i in range(16 if q else 160)], track.to_traces, 60),
            (trackrun.execute, [trackrun.scenario(seed, i) for i in range(130 if q else 4000)], trackrun.to_traces, 40)]
    traces, metas = [], []
    for fn, scs, conv, per in jobs:
        t, m = conv(scs, common.run_pool(rep, fn, scs, procs=7, per=per))
        traces += t
        metas += m
    common.judge(rep, "TrackTrace", traces, metas, None)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [dict(ev=traces[0]["ev"]), dict(ev=traces[-1]["ev"])]
