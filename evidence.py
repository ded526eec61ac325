def record(prop, tier, seed, chk, tot, samples, violations, wall, jobs):
    runs = {}
    for j in jobs:
        k = f"{j['gen']} pool {j['pool']} depth {j['depth']}" + (f" x{j['num']}" if j["gen"] == "sim" else "")
        runs[k] = runs.get(k, 0) + 1
    cov = dict(states=tot["states"], transitions=tot["transitions"],
               traces_validated_against_impl=tot["histories"], answers_compared=tot["steps"],
               samples=samples[:2] or ["(none)"], tlc_runs=[f"{k} ({v} runs)" for k, v in sorted(runs.items())])
    for k in tot:
        if k not in ("states", "transitions", "histories", "steps"):
            cov[k] = tot[k]
    return dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(wall, 2),
                violations=violations,
                assumptions=["calls stay in the domain given by Enabled in spec/Calls.tla and Wanted in spec/Profiles.tla",
                             "no concurrent use of a store, apart from its own TTL service"])
